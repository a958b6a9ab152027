-------------------------------- MODULE Meet --------------------------------
(* Where plane figures meet, and which points they enclose.  Figures have     *)
(* integer coordinates (angles: multiples of 15 degrees), so that whether two *)
(* pieces meet is decided exactly; the points are compared in thousandths.    *)
EXTENDS Fix, FiniteSets

Line(a, b) == [t |-> "line", a |-> a, b |-> b, c |-> a, r |-> 0, s |-> 0, w |-> 0]
ArcP(c, r, s, w) == [t |-> "arc", a |-> c, b |-> c, c |-> c, r |-> r, s |-> s, w |-> w]
RECURSIVE Pieces(_), CatP(_, _)
CatP(q, i) == IF i > Len(q) THEN <<>> ELSE Pieces(q[i]) \o CatP(q, i + 1)
Pieces(e) == CASE e.t = "line" -> << Line(e.a, e.b) >>
               [] e.t = "circle" -> << ArcP(e.c, e.r, 0, 360) >>
               [] e.t = "arc" -> << ArcP(e.c, e.r, e.s % 360, (e.e - e.s) % 360) >>
               [] e.t = "poly" -> [i \in 1..Len(e.p) - 1 |-> Line(e.p[i], e.p[i + 1])]
               [] e.t = "list" -> CatP(e.g, 1)
               [] OTHER -> <<>>
X2(v, w) == v[1] * w[2] - v[2] * w[1]
D2(v, w) == v[1] * w[1] + v[2] * w[2]
V2(a, b) == <<b[1] - a[1], b[2] - a[2]>>
Cl(x) == Max(-2000000, Min(2000000, x))
Pt(x, y) == <<Cl(x), Cl(y)>>
Dist2(p, q) == Mag(<<p[1] - q[1], p[2] - q[2], 0>>)
Near2(p, q, t) == Near(p[1], q[1], t) /\ Near(p[2], q[2], t)

(* a meeting point: sure, or in the tolerance zone of the end of an arc *)
C(p, sure) == [p |-> p, sure |-> sure]
(* the point (thousandths) of the circle of e against the extent of e *)
Ends(e) == {e.s, e.s + e.w}
EndPt(e, a) == LET z == Polar(<<1000 * e.c[1], 1000 * e.c[2], 0>>, 1000 * e.r, 1000 * a) IN <<z[1], z[2]>>
Exact(a) == a % 90 = 0
EndInt(e, a) == <<e.c[1] + e.r * (CASE a % 360 = 0 -> 1 [] a % 360 = 180 -> -1 [] OTHER -> 0),
                  e.c[2] + e.r * (CASE a % 360 = 90 -> 1 [] a % 360 = 270 -> -1 [] OTHER -> 0)>>
InSweep(e, p) == e.w = 360 \/ LET m == 1000 * e.s + 500 * e.w
                                 d == <<p[1] - 1000 * e.c[1], p[2] - 1000 * e.c[2]>>
                             IN d[1] * (CosD(m) \div 4) + d[2] * (SinD(m) \div 4) >= 1000 * e.r * (CosD(500 * e.w) \div 4)
Zone(e, p) == e.w # 360 /\ \E a \in Ends(e) : Dist2(p, EndPt(e, a)) < 40
(* hit(a): does the other piece pass exactly through the end at angle a *)
OnArc(e, p, Hit(_)) ==
  IF ~Zone(e, p) THEN IF InSweep(e, p) THEN "yes" ELSE "no"
  ELSE IF \E a \in Ends(e) : Exact(a) /\ Near2(p, EndPt(e, a), 6) /\ Hit(EndInt(e, a)) THEN "yes" ELSE "maybe"

LineLine(e, f, inside) ==
  LET v == V2(e.a, e.b) w == V2(f.a, f.b) z == V2(e.a, f.a)
      dn == X2(v, w) tn == X2(z, w) un == X2(z, v)
      d == Abs(dn) t == Sgn(dn) * tn u == Sgn(dn) * un
  IN IF dn = 0 \/ (inside /\ ~(t >= 0 /\ t <= d /\ u >= 0 /\ u <= d)) THEN {}
     ELSE {C(Pt(1000 * e.a[1] + Rnd(1000 * v[1] * t, d), 1000 * e.a[2] + Rnd(1000 * v[2] * t, d)), TRUE)}
LineArc(e, f, inside) ==
  LET v == V2(e.a, e.b) w == V2(f.c, e.a) L == D2(v, v) s == D2(w, v) cr == X2(v, w)
      D == f.r * f.r * L - cr * cr
      q == ISqrt(D * 262144)                                      \* 512 sqrt(D)
      P(g) == LET n == -512 * s + g * q
              IN Pt(1000 * e.a[1] + Rnd(MulDiv(1000 * v[1], n, L), 512), 1000 * e.a[2] + Rnd(MulDiv(1000 * v[2], n, L), 512))
      In(g) == IF g > 0 THEN (s <= 0 \/ D >= s * s) /\ (L + s >= 0 /\ D <= (L + s) * (L + s))
               ELSE (s <= 0 /\ s * s >= D) /\ (L + s >= 0 \/ D >= (L + s) * (L + s))
      Hit(E) == X2(v, V2(e.a, E)) = 0
      One(g) == IF inside /\ ~In(g) THEN {}
                ELSE LET o == IF inside THEN OnArc(f, P(g), Hit) ELSE "yes" IN IF o = "no" THEN {} ELSE {C(P(g), o = "yes")}
  IN IF D < 0 THEN {} ELSE One(1) \cup One(-1)
ArcArc(e, f, inside) ==
  LET v == V2(e.c, f.c) d2 == D2(v, v) A == e.r * e.r - f.r * f.r + d2
      H == 4 * d2 * e.r * e.r - A * A
      q == ISqrt(H * 65536)                                       \* 256 sqrt(H)
      P(g) == Pt(1000 * e.c[1] + Rnd(MulDiv(1000, 256 * v[1] * A - g * v[2] * q, 2 * d2), 256),
                 1000 * e.c[2] + Rnd(MulDiv(1000, 256 * v[2] * A + g * v[1] * q, 2 * d2), 256))
      HitE(E) == D2(V2(f.c, E), V2(f.c, E)) = f.r * f.r
      HitF(E) == D2(V2(e.c, E), V2(e.c, E)) = e.r * e.r
      One(g) == LET a == IF inside THEN OnArc(e, P(g), HitE) ELSE "yes" b == IF inside THEN OnArc(f, P(g), HitF) ELSE "yes"
                IN IF "no" \in {a, b} THEN {} ELSE {C(P(g), {a, b} = {"yes"})}
  IN IF d2 = 0 \/ H < 0 THEN {} ELSE One(1) \cup One(-1)
Cands(e, f, inside) == IF e.t = "line" THEN IF f.t = "line" THEN LineLine(e, f, inside) ELSE LineArc(e, f, inside)
                       ELSE IF f.t = "line" THEN LineArc(f, e, inside) ELSE ArcArc(e, f, inside)
(* pieces on the same line or circle may share more than points: nothing is said about them *)
Same(e, f) == \/ e.t = "line" /\ f.t = "line" /\ X2(V2(e.a, e.b), V2(f.a, f.b)) = 0 /\ X2(V2(e.a, e.b), V2(e.a, f.a)) = 0
              \/ e.t = "arc" /\ f.t = "arc" /\ e.c = f.c /\ e.r = f.r
OnCarrier(e, p) == IF e.t = "line" THEN LET v == V2(e.a, e.b) IN Abs(X2(<<v[1], v[2]>>, <<p[1] - 1000 * e.a[1], p[2] - 1000 * e.a[2]>>)) < 20 * ISqrt(D2(v, v)) + 20
                   ELSE Near(Dist2(p, <<1000 * e.c[1], 1000 * e.c[2]>>), 1000 * e.r, 20)
All(A, B, inside) == UNION { Cands(A[i], B[j], inside) : i \in 1..Len(A), j \in 1..Len(B) }
Meet1(A, B, p) == \/ \E x \in All(A, B, TRUE) : Near2(x.p, p, 15)
                  \/ \E j \in 1..Len(A), l \in 1..Len(B) : Same(A[j], B[l]) /\ OnCarrier(A[j], p)
Meet(A, B, inside, pts, all) ==
  LET c == All(A, B, inside)
  IN /\ \A i \in 1..Len(pts) : \/ \E x \in c : Near2(x.p, pts[i], 15)
                               \/ \E j \in 1..Len(A), l \in 1..Len(B) : Same(A[j], B[l]) /\ OnCarrier(A[j], pts[i])
     /\ \A x \in c : x.sure => \E i \in 1..Len(all) : Near2(x.p, all[i], 15)

(* ------------------------------------------------------- enclosed points *)
(* everything doubled, the point in half units *)
Dbl(e) == [e EXCEPT !.a = <<2 * @[1], 2 * @[2]>>, !.b = <<2 * @[1], 2 * @[2]>>, !.c = <<2 * @[1], 2 * @[2]>>, !.r = 2 * @]
OnB(e, p) == IF e.t = "line" THEN /\ X2(V2(e.a, e.b), V2(e.a, p)) = 0 /\ D2(V2(p, e.a), V2(p, e.b)) <= 0
             ELSE D2(V2(e.c, p), V2(e.c, p)) = e.r * e.r
QPt(e, k) == EndInt(e, 90 * k)
CrossQ(e, k, p) ==                                     \* the quarter from 90 k to 90 (k + 1)
  LET y1 == QPt(e, k)[2] y2 == QPt(e, k + 1)[2] dy == p[2] - e.c[2] m == e.r * e.r - dy * dy x == p[1] - e.c[1]
  IN IF (y1 <= p[2]) = (y2 <= p[2]) THEN 0
     ELSE IF k % 4 \in {0, 3} THEN IF x < 0 \/ x * x < m THEN 1 ELSE 0
     ELSE IF x < 0 /\ m < x * x THEN 1 ELSE 0
RECURSIVE SumQ(_, _, _, _), SumC(_, _, _)
SumQ(e, k, n, p) == IF n = 0 THEN 0 ELSE CrossQ(e, k, p) + SumQ(e, k + 1, n - 1, p)
Crosses(e, p) ==
  IF e.t = "arc" THEN SumQ(e, e.s \div 90, e.w \div 90, p)
  ELSE IF (e.a[2] <= p[2]) = (e.b[2] <= p[2]) THEN 0
  ELSE LET o == X2(V2(e.a, e.b), V2(e.a, p)) IN IF (e.b[2] > e.a[2]) = (o > 0) THEN 1 ELSE 0
SumC(q, p, i) == IF i = 0 THEN 0 ELSE Crosses(q[i], p) + SumC(q, p, i - 1)
Inside(q, p) == SumC(q, p, Len(q)) % 2 = 1
Border(q, p) == \E i \in 1..Len(q) : OnB(q[i], p)
InsideOk(e, p, got) ==
  LET q == [i \in 1..Len(Pieces(e)) |-> Dbl(Pieces(e)[i])]
      open == e.t = "line" \/ (e.t = "poly" /\ e.p[1] # e.p[Len(e.p)])
  IN IF open THEN got = Border(q, p) ELSE Border(q, p) \/ got = Inside(q, p)

(* ----------------------------------------------------------- transitions *)
MtInit(i) == [n |-> 0]
Flat(p) == <<p[1], p[2]>>
MtApply(s, op) ==
  CASE op.k = "meet" ->
         LET A == Pieces(op.a) B == Pieces(op.b) P == [i \in 1..Len(op.pts) |-> Flat(op.pts[i])]
         IN [st |-> s, obs |-> [res |-> "ok", kept |-> TRUE, meet |-> Meet(A, B, op.inside, P, P), found |-> Len(op.pts) > 0]]
    [] op.k = "params" ->
         LET A == Pieces(op.a) B == Pieces(op.b)
             n == Len(op.uv)
             In(i) == \A j \in 1..2 : op.uv[i][j] >= -10 /\ op.uv[i][j] <= 1000010         \* millionths
             ins == SelectSeq([i \in 1..n |-> i], In)
             P == [i \in 1..3 * Len(ins) |-> Flat(op.sa[ins[(i + 2) \div 3]][(i % 3) + 1])]
             \* at a joint with a gap, one parameter stands for two points
             Good(i) == \E j, l \in 1..3 : NearV(op.sa[i][j], op.sb[i][l], 15)
         IN [st |-> s, obs |-> [res |-> "ok", kept |-> TRUE, same |-> \A i \in 1..n : Good(i),
                                \* on request, the parameters of meetings of the extensions are given as well
                                ext |-> op.inside \/ Meet(A, B, FALSE, <<>>, [i \in 1..3 * n |-> Flat(op.sa[(i + 2) \div 3][(i % 3) + 1])]),
                                meet |-> Meet(A, B, TRUE, <<>>, P) /\ \A i \in 1..Len(ins) : \E j \in 1..3 : Meet1(A, B, Flat(op.sa[ins[i]][j]))]]
    [] op.k = "inside" ->
         [st |-> s, obs |-> [res |-> "ok", kept |-> TRUE, each |-> [i \in 1..Len(op.ps) |-> InsideOk(op.a, op.ps[i], op.got[i])]]]
MtGood(s) == s.n = 0
=============================================================================
