---- MODULE OutMC ----
(* laws of regions: all pairs of triangles and discs on a small grid, every half-unit point *)
EXTENDS Out
CONSTANTS Depth
VARIABLES a, b
G == {100 * i : i \in 0..Depth}
Ps == {<<x, y>> : x \in G, y \in G}
Turns(p, q, r) == X2(V2(p, q), V2(q, r))
Tris == { t \in {<<p, q, r>> : p \in {<<0, 0>>}, q \in Ps, r \in Ps} : Turns(t[1], t[2], t[3]) > 0 }
Shapes == { Leaf(t, <<c, c, c>>) : t \in Tris, c \in {0, 50} } \cup { Leaf(<<p>>, <<c>>) : p \in {<<100, 100>>, <<0, 200>>}, c \in {100, 130} }
Small == { s \in Shapes : Len(s.p) = 1 } \cup { Leaf(<< <<0, 0>>, <<200, 0>>, <<0, 200>> >>, <<0, 0, 0>>), Leaf(<< <<0, 100>>, <<100, 0>>, <<100, 200>> >>, <<50, 0, 20>>) }
MInit == a \in Shapes /\ b \in Small
MNext == FALSE /\ UNCHANGED <<a, b>>
MView == <<a, b>>
Qs == {<<80 * x - 25, 80 * y + 10>> : x \in 0..(Depth + 1), y \in 0..(Depth + 1)}
One == b = Leaf(<<<<0, 200>>>>, <<100>>)
Op2(o, x, y) == Node(o, <<x, y>>)
Sure(n, q) == Where(n, q) # 0
(* a point of the first figure is in the difference or in the intersection, never in both *)
InvSplit == \A q \in Qs : Sure(a, q) /\ Sure(b, q) =>
   LET d == Where(Op2("difference", a, b), q) i == Where(Op2("intersection", a, b), q) u == Where(Op2("union", a, b), q)
       e == Where(Op2("difference", b, a), q)
   IN /\ d # 0 /\ i # 0 /\ u # 0
      /\ (Where(a, q) = 1) = ((d = 1) # (i = 1))
      /\ (u = 1) = (d = 1 \/ i = 1 \/ e = 1)
      /\ Cardinality({k \in 1..3 : <<d, i, e>>[k] = 1}) <= 1
InvSym == \A q \in Qs : \A o \in {"union", "intersection"} : Where(Op2(o, a, b), q) = Where(Op2(o, b, a), q)
(* moves carry the figure and its points alike *)
Mv(how, v, q) == [how |-> how, v |-> v, q |-> q]
MP(m, x) == LET n == Move(Leaf(<<x>>, <<0>>), m) IN n.p[1]
InvMove == One => \A m \in {Mv("translate", <<130, -70>>, 1), Mv("rotate", <<100, 0>>, 1), Mv("rotate", <<0, 50>>, 3), Mv("mirror", <<0, 0>>, 0), Mv("matrix", <<30, 40>>, 2)} :
             \A q \in Qs : LET x == Where(a, q) y == Where(Move(a, m), MP(m, q)) IN x = 0 \/ y = 0 \/ x = y
InvScale == One => LET m == Mv("scale", <<100, 0>>, 2) IN \A q \in Qs : LET x == Where(a, q) y == Where(Move(a, m), MP(m, q)) IN x = 0 \/ y = 0 \/ x = y
(* growing never loses a point, and adds only points near the figure *)
Grown(n, r) == Leaf(n.p, [j \in 1..Len(n.r) |-> n.r[j] + r])
InvGrow == One => \A q \in Qs : /\ Where(a, q) = 1 => Where(Grown(a, 50), q) = 1
                         /\ Where(Grown(a, 50), q) = -1 => Where(a, q) = -1
InvBox == One => LET bb == LBox(a) IN \A q \in Qs : Where(a, q) = 1 => q[1] >= bb[1][1] /\ q[1] <= bb[2][1] /\ q[2] >= bb[1][2] /\ q[2] <= bb[2][2]
====
