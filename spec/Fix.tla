-------------------------------- MODULE Fix --------------------------------
(* Fixed-point geometry: lengths in thousandths, angles in thousandths of a   *)
(* degree, trigonometric values scaled by F.                                  *)
EXTENDS Lin

F == 40000
Tol == 15
Near(a, b, t) == Abs(a - b) <= t
NearV(a, b, t) == Near(a[1], b[1], t) /\ Near(a[2], b[2], t) /\ Near(a[3], b[3], t)
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Rnd(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -((-a + b \div 2) \div b)     \* a / b rounded, b > 0

(* a * b / c without leaving the range of 32 bits (a, b >= 0, 0 < c < 2^29)   *)
RECURSIVE MD(_, _, _), ISq(_, _)
MD(a, b, c) == IF b = 0 THEN [q |-> 0, r |-> 0]
               ELSE LET h == MD(a, b \div 2, c)
                        q2 == 2 * h.q + (2 * h.r) \div c
                        r2 == (2 * h.r) % c
                        e == IF b % 2 = 1 THEN r2 + (a % c) ELSE r2
                    IN [q |-> q2 + e \div c + (IF b % 2 = 1 THEN a \div c ELSE 0), r |-> e % c]
MulDiv(a, b, c) == IF Abs(a) < 40000 /\ Abs(b) < 40000 THEN Rnd(a * b, c)
                   ELSE Sgn(a) * Sgn(b) * MD(Abs(a), Abs(b), c).q
ISq(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE ISq(n, y)
ISqrt(n) == IF n <= 0 THEN 0 ELSE ISq(n, IF n < 65536 THEN 256 ELSE IF n < 16777216 THEN 4096 ELSE 46340)
Mag(v) == IF Abs(v[1]) + Abs(v[2]) + Abs(v[3]) < 40000 THEN ISqrt(Dot(v, v))
          ELSE 4 * ISqrt((v[1] \div 4) * (v[1] \div 4) + (v[2] \div 4) * (v[2] \div 4) + (v[3] \div 4) * (v[3] \div 4))
DistV(a, b) == Mag(VSub(a, b))

(* sine and cosine of an angle in thousandths of a degree, scaled by F *)
SinR(x) == LET x2 == (x * x) \div F x3 == (x * x2) \div F x5 == (x3 * x2) \div F IN x - Rnd(x3, 6) + Rnd(x5, 120)
CosR(x) == LET x2 == (x * x) \div F x4 == (x2 * x2) \div F x6 == (x4 * x2) \div F IN F - Rnd(x2, 2) + Rnd(x4, 24) - Rnd(x6, 720)
RadF(d) == (d * 6981 + d \div 3) \div 10000               \* d <= 45000
Sin90(d) == IF d <= 45000 THEN SinR(RadF(d)) ELSE CosR(RadF(90000 - d))
SinD(a) == LET d == a % 360000
           IN CASE d <= 90000 -> Sin90(d) [] d <= 180000 -> Sin90(180000 - d)
                [] d <= 270000 -> -Sin90(d - 180000) [] OTHER -> -Sin90(360000 - d)
CosD(a) == SinD(a + 90000)
Polar(c, r, a) == <<c[1] + Rnd(r * CosD(a), F), c[2] + Rnd(r * SinD(a), F), c[3]>>
RotZ(p, c, a) == LET x == p[1] - c[1] y == p[2] - c[2] cs == CosD(a) sn == SinD(a)
                 IN <<c[1] + Rnd(x * cs, F) - Rnd(y * sn, F), c[2] + Rnd(x * sn, F) + Rnd(y * cs, F), p[3]>>
ArcLen(r, w) == MulDiv(r, MulDiv(Abs(w), 17453, 1000000), 1000)
=============================================================================
