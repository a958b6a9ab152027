-------------------------------- MODULE Shape --------------------------------
(* What the shape functions of the DSL denote.  A program is a sequence of    *)
(* definitions; every definition has a value: a number, a point or vector (in *)
(* half units), a transform (whole matrix and offset), a solid on the grid    *)
(* (the set of its cells), a round solid (its volume in twelfths of pi and    *)
(* its box in half units), a region of the plane (the set of its squares), a  *)
(* curve or a list of these.  Values the specification does not know are fog, *)
(* programs it requires to fail are bad.                                      *)
EXTENDS Lin, FiniteSets
V == INSTANCE Vox

Now(S) == { c : c \in S }                           \* TLC lists unions, differences and filters of products late
Only(X) == CHOOSE x \in X : TRUE                     \* evaluates its argument once

Fog == [ty |-> "fog"]
Bad == [ty |-> "bad"]
Num(n) == [ty |-> "num", v |-> n]
Pt(v) == [ty |-> "pt", v |-> v]
Vec(v) == [ty |-> "vec", v |-> v]
Xf(R, t) == [ty |-> "xf", R |-> R, t |-> t]
\* hz: made by a boolean operation of solids with faces in one plane; pl: the corners are the vertices
Sol(S, hz, pl) == [ty |-> "sol", v |-> Now(S), hz |-> hz, pl |-> pl]
Rnd(vol, lo, hi, bx, tol) == [ty |-> "round", vol |-> vol, lo |-> lo, hi |-> hi, bx |-> bx, tol |-> tol]
Lst(q) == [ty |-> "list", v |-> q]
Deg(d) == d % 360

----------------------------------------------------------------------------
(* affine maps of cells and boxes: every row of the matrix has one entry      *)
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a < b THEN b ELSE a
MapBox(R, t, lo, hi) == LET p == VAdd(MV(R, lo), t) q == VAdd(MV(R, hi), t)
                        IN [lo |-> <<MinI(p[1], q[1]), MinI(p[2], q[2]), MinI(p[3], q[3])>>,
                            hi |-> <<MaxI(p[1], q[1]), MaxI(p[2], q[2]), MaxI(p[3], q[3])>>]
Grid(R) == \A i \in 1..3 : Cardinality({ j \in 1..3 : R[i][j] # 0 }) = 1
Image(R, t, S) == UNION { LET b == MapBox(R, t, c, <<c[1] + 1, c[2] + 1, c[3] + 1>>) IN V!Box(b.lo, VSub(b.hi, b.lo)) : c \in S }
MovedBy(R, t, s) ==
  IF s.ty = "sol" THEN IF Grid(R) THEN Sol(Image(R, t, s.v), s.hz, s.pl) ELSE Fog
  ELSE IF s.ty = "round" THEN IF ~Grid(R) THEN Fog
       ELSE LET b == MapBox(R, VScale(2, t), s.lo, s.hi) IN [s EXCEPT !.vol = @ * Abs(Det(R)), !.lo = b.lo, !.hi = b.hi]
  ELSE IF s.ty = "reg" THEN
       IF R[3] # <<0, 0, 1>> \/ R[1][3] # 0 \/ R[2][3] # 0 \/ t[3] # 0 \/ ~Grid(R) THEN Fog
       ELSE [s EXCEPT !.v = { <<c[1], c[2]>> : c \in Image(R, t, { <<q[1], q[2], 0>> : q \in s.v }) }]
  ELSE Fog
Moved(R, t, s) == Only({ MovedBy(w[1], w[2], w[3]) : w \in {<<R, t, s>>} })
Diag(a, b, c) == <<<<a, 0, 0>>, <<0, b, 0>>, <<0, 0, c>>>>
\* reflection in the plane through the origin with normal n; fog off the grid
Div(n, R) == IF \A i \in 1..3, j \in 1..3 : R[i][j] % n = 0
             THEN ToTuple([i \in 1..3 |-> [j \in 1..3 |-> R[i][j] \div n]]) ELSE <<>>
Mirror(n) == LET d == Dot(n, n) IN Div(d, ToTuple([i \in 1..3 |-> [j \in 1..3 |-> (IF i = j THEN d ELSE 0) - 2 * n[i] * n[j]]]))
\* reflection of the plane in the line through the origin along (a, b)
Across(a, b) == LET d == a * a + b * b
                IN Div(d, <<<<a * a - b * b, 2 * a * b, 0>>, <<2 * a * b, b * b - a * a, 0>>, <<0, 0, d>>>>)
Turn3(x, y, z) == MM(RotM(<<0, 0, 1>>, z), MM(RotM(<<0, 1, 0>>, y), RotM(<<1, 0, 0>>, x)))
AsXf(R) == IF R = <<>> THEN Fog ELSE Xf(R, Zero3)

----------------------------------------------------------------------------
(* boolean operations: only solids of the grid in general position stay exact *)
RECURSIVE Fold(_, _, _)
Fold(op, acc, q) ==
  IF q = <<>> THEN acc
  ELSE LET b == Head(q)
       IN IF acc.ty # "sol" \/ b.ty # "sol" THEN Fog
          ELSE IF acc.hz \/ b.hz \/ acc.v = {} \/ b.v = {} THEN Fog
          ELSE Only({ Fold(op, w, Tail(q)) : w \in {Sol(V!Bool(op, acc.v, b.v), V!Flush(acc.v, b.v), FALSE)} })
\* bodies side by side, not merged
Apart(q) == \A i, j \in 1..Len(q) : i = j \/ V!Closure(q[i].v) \cap V!Closure(q[j].v) = {}
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN {} ELSE Head(q).v \cup Join(Tail(q))
Compound(q) == IF q = <<>> THEN Bad
               ELSE IF (\A i \in 1..Len(q) : q[i].ty = "sol" /\ ~q[i].hz) /\ Apart(q) THEN Sol(Join(q), FALSE, FALSE)
               ELSE Fog

----------------------------------------------------------------------------
(* regions of the plane: squares of the grid; parts 1 and holes 0 is an       *)
(* outline, holes an outline with holes, parts several outlines               *)
Sq(lo, d) == { <<x, y>> : x \in lo[1]..(lo[1] + d[1] - 1), y \in lo[2]..(lo[2] + d[2] - 1) }
N4 == { <<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>> }
P2(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Rim(S) == Now({ f \in S \X N4 : P2(f[1], f[2]) \notin S })
Lines2(S) == { IF f[2][1] # 0 THEN <<1, f[1][1] + (IF f[2][1] = 1 THEN 1 ELSE 0)>> ELSE <<2, f[1][2] + (IF f[2][2] = 1 THEN 1 ELSE 0)>> : f \in Rim(S) }
Flush2(A, B) == Lines2(A) \cap Lines2(B) # {}
RECURSIVE Grow(_, _)
Grow(R, S) == Only({ IF Q = R THEN R ELSE Grow(Q, S) : Q \in {Now(R \cup { c \in S : \E n \in N4 : P2(c, n) \in R })} })
Conn(S) == S # {} /\ \A T \in {S} : Grow({CHOOSE c \in T : TRUE}, T) = T
Around(S) == LET X == {c[1] : c \in S} Y == {c[2] : c \in S}
             IN ((V!Min(X) - 1)..(V!Max(X) + 1)) \X ((V!Min(Y) - 1)..(V!Max(Y) + 1))
Full(S) == \A T \in {Now(Around(S) \ S)} : Conn(T)                       \* no holes
Cross2(S) == \E c \in S : \E a \in {1, -1}, b \in {1, -1} : P2(c, <<a, 0>>) \notin S /\ P2(c, <<0, b>>) \notin S /\ P2(c, <<a, b>>) \in S
Near2(S) == { P2(c, <<a, b>>) : c \in S, a \in {-1, 0, 1}, b \in {-1, 0, 1} }
Reg(S) == [ty |-> "reg", v |-> Now(S)]
Outline(r) == r.ty = "reg" /\ Conn(r.v) /\ Full(r.v) /\ ~Cross2(r.v)
Ringed(r) == r.ty = "reg" /\ Conn(r.v) /\ ~Full(r.v) /\ ~Cross2(r.v)
Bool2By(op, a, b) ==
  IF ~Outline(b) THEN Fog
  ELSE IF Outline(a) /\ ~Flush2(a.v, b.v)
    THEN LET S == CASE op = "union" -> a.v \cup b.v [] op = "intersection" -> a.v \cap b.v [] op = "difference" -> a.v \ b.v
         IN Only({ IF T # {} /\ ~Cross2(T) THEN Reg(T) ELSE Fog : T \in {Now(S)} })
  ELSE IF Ringed(a) /\ op = "difference" /\ Near2(b.v) \subseteq a.v THEN Reg(a.v \ b.v)
  ELSE Fog
Bool2(op, a, b) == Only({ Bool2By(op, w[1], w[2]) : w \in {<<a, b>>} })
RECURSIVE Fold2(_, _, _)
Fold2(op, acc, q) == IF q = <<>> THEN acc ELSE Only({ Fold2(op, w, Tail(q)) : w \in {Bool2(op, acc, Head(q))} })
Pairs(n) == [i \in 1..(Len(n) \div 2) |-> <<n[2 * i - 1], n[2 * i]>>]
\* regular polygons by their number of sides: area / r^2 and perimeter / r in millionths
Ngon(k) == CASE k = 3 -> <<1299038, 5196152>> [] k = 4 -> <<2000000, 5656854>> [] k = 6 -> <<2598076, 6000000>>
             [] k = 8 -> <<2828427, 6122935>> [] k = 12 -> <<3000000, 6211657>> [] k = 64 -> <<3136548, 6280663>>
RReg(k, r) == [ty |-> "rreg", area |-> (Ngon(k)[1] * r * r) \div 1000, rim |-> (Ngon(k)[2] * r) \div 1000]

----------------------------------------------------------------------------
(* curves: straight ones and arcs over quarter turns (points in half units)   *)
Quad(i) == CASE i % 4 = 0 -> <<1, 0>> [] i % 4 = 1 -> <<0, 1>> [] i % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
At(c, i, n) ==                                       \* the point i/n of the way along
  IF c.ty = "seg" THEN LET d == VScale(i, VSub(c.q, c.p)) IN
       IF \A k \in 1..3 : d[k] % n = 0 THEN Pt(VAdd(c.p, <<d[1] \div n, d[2] \div n, d[3] \div n>>)) ELSE Fog
  ELSE IF (i * (c.b - c.a)) % n # 0 THEN Fog
  ELSE LET u == Quad(c.a + (i * (c.b - c.a)) \div n) IN Pt(<<c.c[1] + 2 * c.r * u[1], c.c[2] + 2 * c.r * u[2], c.c[3]>>)
\* integral length, else unknown
Dist2(p, q) == LET d == Dot(VSub(p, q), VSub(p, q)) IN IF IsSquare(d) /\ Sqrt(d) % 2 = 0 THEN Num(Sqrt(d) \div 2) ELSE Fog
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN Num(0)
          ELSE LET h == Head(q) r == Sum(Tail(q)) IN IF h.ty = "num" /\ r.ty = "num" THEN Num(h.v + r.v) ELSE Fog

----------------------------------------------------------------------------
(* expressions: function, arguments, constants                                *)
RECURSIVE All(_, _)
All(f, n) == IF n = 0 THEN <<>> ELSE Append(All(f, n - 1), f[n])      \* as a tuple
Row(s, n, v) == [i \in 1..n |-> Moved(I3, VScale(i - 1, v), s)]
Ring(s, n, ax, c) == [i \in 1..n |-> LET R == RotM(ax, (360 \div n) * (i - 1)) IN Moved(R, VSub(c, MV(R, c)), s)]
Cube3(n) == n * n * n
Tri(n, i) == <<n[i], n[i + 1], n[i + 2]>>
Apply(f, n, A) ==
  LET a == A[1] b == A[2] IN
  CASE f = "box" -> Sol(V!Box(<<-(n[1] \div 2), -(n[2] \div 2), -(n[3] \div 2)>>, n), FALSE, TRUE)
    [] f = "cylinder" -> Rnd(12 * n[1] * n[1] * n[2], <<-2 * n[1], -2 * n[1], 0>>, <<2 * n[1], 2 * n[1], 2 * n[2]>>, TRUE, 8)
    [] f = "cone" -> LET m == 2 * MaxI(n[1], n[2]) IN Rnd(4 * n[3] * (n[1] * n[1] + n[1] * n[2] + n[2] * n[2]), <<-m, -m, 0>>, <<m, m, 2 * n[3]>>, TRUE, 8)
    [] f = "tube" -> Rnd(3 * n[3] * (n[1] * n[1] - (n[1] - 2 * n[2]) * (n[1] - 2 * n[2])), <<-n[1], -n[1], 0>>, <<n[1], n[1], 2 * n[3]>>, TRUE, 8)
    [] f = "conic_tube" -> LET m == MaxI(n[1], n[2]) p == n[1] - 2 * n[3] q == n[2] - 2 * n[3]
                           IN Rnd(n[4] * (n[1] * n[1] + n[1] * n[2] + n[2] * n[2] - p * p - p * q - q * q), <<-m, -m, 0>>, <<m, m, 2 * n[4]>>, TRUE, 8)
    [] f = "spherical_shell" -> Rnd(2 * (Cube3(n[1]) - Cube3(n[1] - 2 * n[2])), <<-n[1], -n[1], -n[1]>>, <<n[1], n[1], n[1]>>, TRUE, 60)
    [] f = "sphere" -> Rnd(16 * Cube3(n[1]), <<-2 * n[1], -2 * n[1], -2 * n[1]>>, <<2 * n[1], 2 * n[1], 2 * n[1]>>, TRUE, 45)
    [] f = "oblate_spheroid" -> Rnd((Cube3(n[1]) * (4 - n[2])) \div 2, <<-n[1], -n[1], -((n[1] * (4 - n[2])) \div 4)>>, <<n[1], n[1], (n[1] * (4 - n[2])) \div 4>>, (n[1] * (4 - n[2])) % 4 = 0, 45)
    [] f = "dodecahedron" -> Rnd((Cube3(n[1]) * 132982) \div 100000, Zero3, Zero3, FALSE, 3)
    \* moves
    [] f = "translate" -> Moved(I3, n, a)
    [] f = "rotate" -> Moved(Turn3(n[1], n[2], n[3]), Zero3, a)
    [] f = "scale" -> Moved(Diag(n[1], n[2], n[3]), Zero3, a)
    [] f = "mirror" -> IF n = Zero3 THEN Bad ELSE IF Mirror(n) = <<>> THEN Fog ELSE Moved(Mirror(n), Zero3, a)
    [] f = "apply" -> IF a.ty # "xf" THEN Fog ELSE Moved(a.R, a.t, b)
    [] f = "apply_point" -> IF a.ty # "xf" THEN Fog ELSE Pt(VAdd(MV(a.R, b.v), VScale(2, a.t)))
    [] f = "apply_vector" -> IF a.ty # "xf" THEN Fog ELSE IF a.t # Zero3 THEN Fog ELSE Vec(MV(a.R, b.v))
    [] f = "translate_xform" -> Xf(I3, n)
    [] f = "rotate_xform" -> Xf(RotM(Tri(n, 1), n[4]), Zero3)
    [] f = "rotate_2d" -> Xf(RotM(<<0, 0, 1>>, n[1]), Zero3)
    [] f = "scale_xform" -> Xf(Diag(n[1], n[2], n[3]), Zero3)
    [] f = "scale_uniform" -> Xf(Diag(n[1], n[1], n[1]), Zero3)
    [] f = "mirror_2d" -> IF n = <<0, 0>> THEN Bad ELSE AsXf(Across(n[1], n[2]))
    [] f = "mirror_y" -> Xf(Diag(-1, 1, 1), Zero3)
    [] f = "identity_transform" -> Xf(I3, Zero3)
    \* set operations
    [] f \in {"union", "intersection", "difference"} -> Fold(f, a, Tail(A))
    [] f \in {"union_all", "intersection_all"} -> IF a.v = <<>> THEN Bad ELSE Fold(IF f = "union_all" THEN "union" ELSE "intersection", a.v[1], Tail(a.v))
    [] f = "difference_all" -> Fold("difference", a, b.v)
    [] f = "compound" -> Compound(A)
    \* lists
    [] f = "list" -> Lst(A)
    [] f = "linear_pattern" -> IF n[1] < 1 THEN Bad ELSE Lst(All(Row(a, n[1], Tri(n, 2)), n[1]))
    [] f = "radial_pattern" -> IF n[1] < 1 THEN Bad ELSE Lst(All(Ring(a, n[1], Tri(n, 2), Tri(n, 5)), n[1]))
    [] f = "index" -> IF n[1] < 0 \/ n[1] >= Len(a.v) THEN Bad ELSE a.v[n[1] + 1]
    [] f = "len" -> Num(Len(a.v))
    [] f = "reverse" -> Lst(All([i \in 1..Len(a.v) |-> a.v[Len(a.v) + 1 - i]], Len(a.v)))
    [] f = "concat" -> Lst(a.v \o b.v)
    \* points and vectors
    [] f = "point" -> Pt(VScale(2, n))
    [] f = "vector" -> Vec(VScale(2, n))
    [] f = "plus" -> [a EXCEPT !.v = VAdd(@, b.v)]
    [] f = "minus" -> [a EXCEPT !.v = VSub(@, b.v)]
    [] f = "times" -> [a EXCEPT !.v = VScale(n[1], @)]
    [] f = "over" -> IF n[1] = 0 THEN Bad ELSE IF \A i \in 1..3 : a.v[i] % Abs(n[1]) = 0
                        THEN [a EXCEPT !.v = VDiv(VScale(IF n[1] < 0 THEN -1 ELSE 1, @), Abs(n[1]))] ELSE Fog
    [] f = "neg" -> [a EXCEPT !.v = VNeg(@)]
    [] f = "coord" -> IF a.v[n[1]] % 2 = 0 THEN Num(a.v[n[1]] \div 2) ELSE Fog
    [] f = "distance" -> Dist2(a.v, b.v)
    \* questions
    [] f = "volume" -> IF a.ty # "sol" THEN Fog ELSE IF a.hz \/ a.v = {} \/ V!Odd(a.v) THEN Fog ELSE Num(Cardinality(a.v))
    [] f = "surface_area" -> IF a.ty # "sol" THEN Fog ELSE IF a.hz THEN Fog ELSE Num(V!Area(a.v))
    [] f = "centroid" -> IF a.ty # "sol" THEN Fog ELSE IF ~a.pl THEN Fog
                         ELSE LET q == V!Bounds(a.v) IN Pt(<<q[1][1] + q[2][1], q[1][2] + q[2][2], q[1][3] + q[2][3]>>)
    \* regions
    [] f = "rectangle" -> Reg(Sq(<<(IF Len(n) > 2 THEN n[3] ELSE 0) - n[1] \div 2, (IF Len(n) > 2 THEN n[4] ELSE 0) - n[2] \div 2>>, <<n[1], n[2]>>))
    [] f = "polygon" -> IF Len(n) < 6 THEN Bad ELSE Reg(V!Plan(Pairs(n), <<>>))
    [] f = "regular_polygon" -> RReg(n[1], n[2])
    [] f = "disk" -> RReg(64, n[1])
    [] f = "union2d" -> Bool2("union", a, b)
    [] f = "difference2d" -> Bool2("difference", a, b)
    [] f = "intersection2d" -> Bool2("intersection", a, b)
    [] f \in {"union2d_all", "intersection2d_all"} -> IF a.v = <<>> THEN Bad ELSE Fold2(IF f = "union2d_all" THEN "union" ELSE "intersection", a.v[1], Tail(a.v))
    [] f = "difference2d_all" -> Fold2("difference", a, b.v)
    [] f = "area" -> IF a.ty # "reg" THEN Fog ELSE Num(Cardinality(a.v))
    [] f = "perimeter" -> IF a.ty # "reg" THEN Fog ELSE Num(Cardinality(Rim(a.v)))
    \* curves
    [] f = "line" -> [ty |-> "seg", p |-> a.v, q |-> b.v]
    [] f = "arc" -> [ty |-> "arc", c |-> a.v, r |-> n[1], a |-> n[2], b |-> n[3]]
    [] f = "circle" -> [ty |-> "arc", c |-> a.v, r |-> n[1], a |-> 0, b |-> 4]
    [] f = "sample_curve" -> At(a, n[1], n[2])
    [] f = "sample_curve_n" -> IF n[1] < 2 THEN Bad ELSE Lst(All([i \in 1..n[1] |-> At(a, i - 1, n[1] - 1)], n[1]))
    [] f = "curve_length" -> IF a.ty # "seg" THEN Fog ELSE Dist2(a.p, a.q)
    [] f = "path3d" -> [ty |-> "path", v |-> A]                                     \* of points
    [] f = "path3d_length" -> Sum([i \in 1..(Len(a.v) - 1) |-> Dist2(a.v[i].v, a.v[i + 1].v)])
    [] f = "path3d_eval" -> IF Len(a.v) # 2 THEN Fog ELSE At([ty |-> "seg", p |-> a.v[1].v, q |-> a.v[2].v], n[1], n[2])

RECURSIVE Ev(_, _), EvAll(_, _)
EvAll(env, q) == IF q = <<>> THEN <<>> ELSE <<Ev(env, Head(q))>> \o EvAll(env, Tail(q))
Ev(env, e) ==
  IF e.f = "var" THEN env[e.n[1]]
  ELSE Only({ IF \E i \in 1..Len(A) : A[i].ty = "bad" THEN Bad
              ELSE IF e.f # "list" /\ \E i \in 1..Len(A) : A[i].ty = "fog" THEN Fog
              ELSE Apply(e.f, e.n, A)
            : A \in {EvAll(env, e.x)} })

----------------------------------------------------------------------------
(* events                                                                     *)
SInit(i) == [env |-> <<>>]
Told(v) == CASE v.ty \in {"num", "pt", "vec"} -> v.v
             [] v.ty = "xf" -> <<v.R, v.t>>
             [] v.ty = "list" -> [i \in 1..Len(v.v) |-> IF v.v[i].ty \in {"num", "pt", "vec"} THEN v.v[i].v ELSE <<>>]
             [] OTHER -> <<>>
Foggy(v) == v.ty = "fog" \/ (v.ty = "list" /\ \E i \in 1..Len(v.v) : v.v[i].ty = "fog")
Free == [any |-> TRUE]
\* saw: what was measured (hundredths); exact: in twelfths of pi
Within(saw, vol, tol) == LET x == (vol * 355) \div 1356 IN 100 * x - (x * tol) \div 10 - 150 <= saw /\ saw <= 100 * x + x \div 10 + 150
BoxNear(saw, v) == ~v.bx \/ \A i \in 1..3 : Abs(saw[1][i] - 50 * v.lo[i]) <= 3 + Abs(v.lo[i] - v.hi[i]) \div 4
                                          /\ Abs(saw[2][i] - 50 * v.hi[i]) <= 3 + Abs(v.lo[i] - v.hi[i]) \div 4
SApply(st, op) ==
  CASE op.k = "let" -> Only({
         [st |-> [st EXCEPT !.env = Append(@, v)],
          obs |-> IF Foggy(v) THEN Free ELSE IF v = Bad THEN [res |-> "fails", val |-> <<>>] ELSE [res |-> "ok", val |-> Told(v)]]
         : v \in {Ev(st.env, op.e)} })
    [] OTHER ->
         LET v == st.env[op.i] IN
         [st |-> st,
          obs |-> IF op.k = "look" THEN IF v.ty # "sol" THEN Free
                    ELSE IF v.hz \/ V!Odd(v.v) THEN Free ELSE [res |-> "ok", val |-> V!Show(v.v)]
                  ELSE IF op.k = "vol" THEN IF v.ty # "sol" THEN Free ELSE [res |-> "ok", val |-> Cardinality(v.v)]
                  ELSE IF op.k = "near" THEN IF v.ty # "round" THEN Free
                    ELSE [res |-> "ok", val |-> [vol |-> Within(op.saw.vol, v.vol, v.tol), box |-> BoxNear(op.saw.box, v), tight |-> op.saw.tight, normals |-> op.saw.normals]]
                  ELSE \* "gauge": area and rim of a region, in thousandths
                    IF v.ty # "rreg" THEN Free
                    ELSE [res |-> "ok", val |-> <<Abs(op.saw[1] - v.area) <= 2 + v.area \div 5000, Abs(op.saw[2] - v.rim) <= 2 + v.rim \div 5000>>]]
SGood(st) == \A i \in 1..Len(st.env) : st.env[i].ty # "sol" \/ \A c \in st.env[i].v : Len(c) = 3
=============================================================================
