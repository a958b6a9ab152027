-------------------------------- MODULE Out --------------------------------
(* Closed plane figures as regions.  A leaf is a closed polygon whose corners *)
(* are discs (radius 0: sharp): the region within the discs, what they sweep  *)
(* along the sides, and what the sides enclose.  Other regions are unions,    *)
(* intersections and differences.  Coordinates in hundredths of a unit.       *)
EXTENDS Fix, FiniteSets
M == 4                                             \* closer than this to an edge nothing is said
Leaf(p, r) == [t |-> "leaf", p |-> p, r |-> r, a |-> <<>>]
Node(op, a) == [t |-> op, p |-> <<>>, r |-> <<>>, a |-> a]
X2(v, w) == v[1] * w[2] - v[2] * w[1]
D2(v, w) == v[1] * w[1] + v[2] * w[2]
V2(a, b) == <<b[1] - a[1], b[2] - a[2]>>
Len2(v) == ISqrt(4 * D2(v, v)) \div 2
Nx(l, i) == (i % Len(l.p)) + 1
Sum1(q) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + q[i] IN S(Len(q))
MinQ(q) == LET RECURSIVE S(_) S(i) == IF i = 1 THEN q[1] ELSE Min(q[i], S(i - 1)) IN S(Len(q))
MaxQ(q) == LET RECURSIVE S(_) S(i) == IF i = 1 THEN q[1] ELSE Max(q[i], S(i - 1)) IN S(Len(q))

(* how far x is from what a side sweeps (negative: within) *)
At(l, i, x, k) == LET a == l.p[i] b == l.p[Nx(l, i)]                              \* k in 0..4096 along side i
                      c == <<a[1] + Rnd((b[1] - a[1]) * k, 4096), a[2] + Rnd((b[2] - a[2]) * k, 4096)>>
                  IN Len2(V2(c, x)) - (l.r[i] + Rnd((l.r[Nx(l, i)] - l.r[i]) * k, 4096))
RECURSIVE Best(_, _, _, _, _)
Best(l, i, x, at, step) ==                          \* the function is convex: search around the best step
  LET ks == { k \in { at + j * step : j \in -8..8 } : k >= 0 /\ k <= 4096 }
      b == CHOOSE k \in ks : \A h \in ks : At(l, i, x, k) <= At(l, i, x, h)
  IN IF step <= 8 THEN At(l, i, x, b) ELSE Best(l, i, x, b, step \div 8)
Side(l, i, x) ==
  LET a == l.p[i] v == V2(a, l.p[Nx(l, i)]) w == V2(a, x) n == D2(v, v) t == D2(v, w)
  IN IF n = 0 \/ (t <= 0 /\ l.r[i] = l.r[Nx(l, i)]) THEN Len2(w) - l.r[i]
     ELSE IF l.r[i] # l.r[Nx(l, i)] THEN Best(l, i, x, 2048, 256)
     ELSE IF t >= n THEN Len2(V2(l.p[Nx(l, i)], x)) - l.r[i]
     ELSE Abs(MulDiv(X2(v, w), 1, Max(1, Len2(v)))) - l.r[i]
Gap(l, x) == MinQ([i \in 1..Len(l.p) |-> Side(l, i, x)])
(* does a ray to the right of x cross the sides an odd number of times *)
Crosses(a, b, x) == (a[2] > x[2]) # (b[2] > x[2]) /\ LET c == X2(V2(a, b), V2(a, x)) IN IF b[2] > a[2] THEN c > 0 ELSE c < 0
Encl(l, x) == Cardinality({ i \in 1..Len(l.p) : Crosses(l.p[i], l.p[Nx(l, i)], x) }) % 2 = 1
(* 1 inside, -1 outside, 0 too near to an edge to tell *)
LeafAt(l, x) == LET g == Gap(l, x) e == Encl(l, x)
                IN IF g < -M THEN 1 ELSE IF g > M THEN IF e THEN 1 ELSE -1
                   ELSE IF e /\ MinQ(l.r) > 2 * M THEN 1 ELSE 0
RECURSIVE Where(_, _), Fold(_, _, _)
Where(n, x) == IF n.t = "leaf" THEN LeafAt(n, x) ELSE Fold(n, x, Len(n.a))
Fold(n, x, i) == IF i = 1 THEN Where(n.a[1], x)
                 ELSE LET p == Fold(n, x, i - 1) q == Where(n.a[i], x)
                      IN CASE n.t = "union" -> Max(p, q) [] n.t = "intersection" -> Min(p, q) [] OTHER -> Min(p, -q)

(* ---------------------------------------------------------------- motions *)
RECURSIVE Map(_, _, _, _)
Map(n, P(_), s, flip) ==
  IF n.t # "leaf" THEN [n EXCEPT !.a = [i \in 1..Len(n.a) |-> Map(n.a[i], P, s, flip)]]
  ELSE LET k == Len(n.p) J(i) == IF flip THEN k + 1 - i ELSE i                     \* mirror images run the other way round
       IN [n EXCEPT !.p = [i \in 1..k |-> P(n.p[J(i)])], !.r = [i \in 1..k |-> s * n.r[J(i)]]]
Quarter(v, q) == CASE q % 4 = 0 -> v [] q % 4 = 1 -> <<-v[2], v[1]>> [] q % 4 = 2 -> <<-v[1], -v[2]>> [] OTHER -> <<v[2], -v[1]>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Times(a, s) == <<s * a[1], s * a[2]>>
Move(n, op) ==
  CASE op.how = "translate" -> LET P(x) == Plus(x, op.v) IN Map(n, P, 1, FALSE)
    [] op.how = "rotate" -> LET P(x) == Plus(op.v, Quarter(V2(op.v, x), op.q)) IN Map(n, P, 1, FALSE)
    [] op.how = "scale" -> LET P(x) == Plus(op.v, Times(V2(op.v, x), op.q)) IN Map(n, P, op.q, FALSE)
    [] op.how = "mirror" -> LET P(x) == IF op.q = 0 THEN <<x[1], -x[2]>> ELSE <<-x[1], x[2]>> IN Map(n, P, 1, TRUE)
    \* the matrix turns about the origin, then shifts
    [] OTHER -> LET P(x) == Plus(op.v, Quarter(x, op.q)) IN Map(n, P, 1, FALSE)

(* --------------------------------------------------------------- measures *)
RECURSIVE Leaves(_), CatL(_, _)
Leaves(n) == IF n.t = "leaf" THEN << n >> ELSE CatL(n.a, Len(n.a))
CatL(q, i) == IF i = 0 THEN <<>> ELSE CatL(q, i - 1) \o Leaves(q[i])
LBox(l) == LET n == Len(l.p) IN << << MinQ([i \in 1..n |-> l.p[i][1] - l.r[i]]), MinQ([i \in 1..n |-> l.p[i][2] - l.r[i]]) >>,
                                   << MaxQ([i \in 1..n |-> l.p[i][1] + l.r[i]]), MaxQ([i \in 1..n |-> l.p[i][2] + l.r[i]]) >> >>
UBox(q) == LET n == Len(q) B(i) == LBox(q[i])
           IN << << MinQ([i \in 1..n |-> B(i)[1][1]]), MinQ([i \in 1..n |-> B(i)[1][2]]) >>, << MaxQ([i \in 1..n |-> B(i)[2][1]]), MaxQ([i \in 1..n |-> B(i)[2][2]]) >> >>
RECURSIVE Joined(_)
Joined(n) == n.t = "leaf" \/ (n.t = "union" /\ \A i \in 1..Len(n.a) : Joined(n.a[i]))
Even(l) == \A i \in 1..Len(l.r) : l.r[i] = l.r[1]
Turn(l, i) == X2(V2(l.p[i], l.p[Nx(l, i)]), V2(l.p[Nx(l, i)], l.p[Nx(l, Nx(l, i))]))
Lefts(l) == Cardinality({ i \in 1..Len(l.p) : Turn(l, i) > 0 })
Square(l) == \A i \in 1..Len(l.p) : LET v == V2(l.p[i], l.p[Nx(l, i)]) IN v[1] = 0 \/ v[2] = 0
Convex(l) == \A i \in 1..Len(l.p) : Turn(l, i) >= 0
Perim(l) == Sum1([i \in 1..Len(l.p) |-> Len2(V2(l.p[i], l.p[Nx(l, i)]))])
Tau(r) == Rnd(r * 62832, 10000)                                    \* 2 pi r
(* the length of the outline, if it has a simple formula (0 otherwise) *)
Length(l) ==
  IF Len(l.p) = 1 THEN Tau(l.r[1])
  ELSE IF ~Even(l) THEN 0
  ELSE IF l.r[1] = 0 THEN Perim(l)
  ELSE IF Convex(l) THEN Perim(l) + Tau(l.r[1])
  ELSE IF Square(l) THEN Perim(l) + Rnd(Tau(l.r[1]) * Lefts(l), 4) - 2 * l.r[1] * (Len(l.p) - Lefts(l)) ELSE 0
(* twice the enclosed area, hundredths of a square unit *)
Tri(l, i) == LET o == l.p[1] IN Rnd(X2(V2(o, l.p[i]), V2(o, l.p[Nx(l, i)])), 100)
Area2(l) == Sum1([i \in 1..Len(l.p) |-> Tri(l, i)])
Sq(r) == Rnd(r * r, 100)
Area(l) ==
  IF Len(l.p) = 1 THEN Rnd(314 * Sq(l.r[1]), 100)
  ELSE IF ~Even(l) THEN -1
  ELSE IF l.r[1] = 0 THEN Abs(Area2(l)) \div 2
  ELSE IF Convex(l) THEN Area2(l) \div 2 + Rnd(Rnd(Perim(l), 10) * l.r[1], 10) + Rnd(314 * Sq(l.r[1]), 100)
  ELSE IF Square(l) THEN Area2(l) \div 2 + Rnd(Rnd(Perim(l), 10) * l.r[1], 10) + Rnd(Rnd(314 * Sq(l.r[1]), 100) * Lefts(l), 4) - Sq(l.r[1]) * (Len(l.p) - Lefts(l)) ELSE -1
(* rectilinear regions with corners on the unit grid, counted in unit cells *)
Cells(n) == LET b == UBox(Leaves(n)) IN { <<100 * i + 50, 100 * j + 50>> : i \in ((b[1][1] \div 100)..((b[2][1] \div 100) - 1)), j \in ((b[1][2] \div 100)..((b[2][2] \div 100) - 1)) }
Filled(n) == { c \in Cells(n) : Where(n, c) = 1 }
FBox(Z) == << << 100 * (CHOOSE m \in { c[1] \div 100 : c \in Z } : \A c \in Z : m <= c[1] \div 100), 100 * (CHOOSE m \in { c[2] \div 100 : c \in Z } : \A c \in Z : m <= c[2] \div 100) >>,
              << 100 * (CHOOSE m \in { c[1] \div 100 : c \in Z } : \A c \in Z : m >= c[1] \div 100) + 100, 100 * (CHOOSE m \in { c[2] \div 100 : c \in Z } : \A c \in Z : m >= c[2] \div 100) + 100 >> >>
(* the point at the fraction n/d of the length of a sharp polygon *)
RECURSIVE Along(_, _, _)
Along(l, i, D) == LET a == l.p[i] b == l.p[Nx(l, i)] L == Len2(V2(a, b))
                  IN IF D <= L \/ i = Len(l.p) THEN <<a[1] + MulDiv(b[1] - a[1], D, Max(1, L)), a[2] + MulDiv(b[2] - a[2], D, Max(1, L))>>
                     ELSE Along(l, i + 1, D - L)
Close2(p, q, t) == Near(p[1], q[1], t) /\ Near(p[2], q[2], t)
SampleOk(o, p, n, d) == /\ Where(o.n, p) = 0
                        /\ (o.kind = "polygon" /\ o.n.t = "leaf" /\ Len(o.n.p) > 1 /\ MaxQ(o.n.r) = 0) =>
                              Close2(p, Along(o.n, 1, MulDiv(Perim(o.n), n % d, d)), 4 + Len(o.n.p))
Centre(l) == LET n == Len(l.p) IN <<Rnd(Sum1([i \in 1..n |-> l.p[i][1]]), n), Rnd(Sum1([i \in 1..n |-> l.p[i][2]]), n)>>

(* ------------------------------------------------------------ transitions *)
OInit(i) == [objs |-> <<>>]
Ret(s, o) == [st |-> s, obs |-> o]
Made(s, kind, n) == Ret([s EXCEPT !.objs = Append(@, [kind |-> kind, n |-> n])], [res |-> "ok"])
Set(s, i, n) == Ret([s EXCEPT !.objs[i].n = n], [res |-> "ok"])
OApply(s, op) ==
  LET o == s.objs[op.i] n == o.n IN
  CASE op.k = "new" -> Made(s, op.kind, Leaf(op.p, op.r))
    [] op.k = "bool" -> Made(s, "bool", Node(op.op, [j \in 1..Len(op.a) |-> s.objs[op.a[j]].n]))
    [] op.k = "copy" -> Made(s, IF op.wrap THEN "wrap" ELSE o.kind, n)
    [] op.k = "move" -> Ret([s EXCEPT !.objs[op.i] = [kind |-> IF @.kind = "polygon" /\ op.how = "mirror" THEN "mirrored" ELSE @.kind, n |-> Move(n, op)]], [res |-> "ok"])
    [] op.k = "add" -> Set(s, op.i, Leaf(Append(n.p, op.p), Append(n.r, op.r)))
    [] op.k = "set" -> IF op.j > Len(n.p) + 1 THEN Ret(s, [res |-> "exc:ValueError"])
                       ELSE IF op.j = Len(n.p) + 1 THEN Set(s, op.i, Leaf(Append(n.p, op.p), Append(n.r, 0)))
                       ELSE Set(s, op.i, Leaf([n.p EXCEPT ![op.j] = op.p], [n.r EXCEPT ![op.j] = 0]))
    [] op.k = "remove" -> Set(s, op.i, Leaf(SubSeq(n.p, 1, op.j - 1) \o SubSeq(n.p, op.j + 1, Len(n.p)), SubSeq(n.r, 1, op.j - 1) \o SubSeq(n.r, op.j + 1, Len(n.r))))
    [] op.k = "grow" -> IF op.r < 0 THEN Ret(s, [res |-> "exc:ValueError"])
                        ELSE Set(s, op.i, Leaf(n.p, [j \in 1..Len(n.r) |-> n.r[j] + op.r]))
    [] op.k = "probe" ->
         LET m == op.m leaf == n.t = "leaf" b == UBox(Leaves(n)) Z == IF op.cells THEN Filled(n) ELSE {}
             empty == op.cells /\ Z = {}
             L == IF leaf THEN Length(n) ELSE 0
             A == IF op.cells THEN 100 * Cardinality(Z) ELSE IF leaf THEN Area(n) ELSE -1
             slack == IF op.cells THEN 3 ELSE IF leaf THEN 3 + (A \div 200) + (IF MaxQ(n.r) > 0 THEN 17 ELSE 0) ELSE 0
         IN IF empty THEN Ret(s, [res |-> "ok", inside |-> <<>>, sample |-> TRUE, length |-> TRUE, centre |-> TRUE, box |-> TRUE, area |-> TRUE, closed |-> TRUE, empty |-> TRUE])
            ELSE IF m.empty THEN Ret(s, [res |-> "ok", inside |-> SelectSeq(op.q, LAMBDA x : Where(n, x) = 1), sample |-> TRUE, length |-> TRUE, centre |-> TRUE, box |-> TRUE, area |-> TRUE, closed |-> TRUE,
                                         empty |-> IF leaf \/ Joined(n) \/ op.cells THEN FALSE ELSE TRUE])
            ELSE
            Ret(s, [res |-> "ok",
                    inside |-> SelectSeq(op.q, LAMBDA x : Where(n, x) = 1 \/ (Where(n, x) = 0 /\ \E j \in 1..Len(m.inside) : m.inside[j] = x)),
                    sample |-> \A j \in 1..Len(op.us) : SampleOk(o, m.pts[j], op.us[j][1], op.us[j][2]),
                    length |-> L = 0 \/ Near(m.len, L, 4 + Len(Leaves(n)) + L \div 1000),
                    centre |-> ~(leaf /\ o.kind \in {"polygon", "mirrored"}) \/ Close2(m.ctr, Centre(n), 2),
                    box |-> IF op.cells THEN LET fb == FBox(Z) IN Close2(m.lo, fb[1], 2) /\ Close2(m.hi, fb[2], 2)
                            ELSE ~Joined(n) \/ (Close2(m.lo, b[1], 4) /\ Close2(m.hi, b[2], 4)),
                    area |-> A < 0 \/ m.area < 0 \/ Near(m.area, A, slack),
                    closed |-> TRUE, empty |-> FALSE])
OGood(s) == TRUE
=============================================================================
