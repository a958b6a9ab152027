-------------------------------- MODULE Vox --------------------------------
(* Solids whose faces lie in the planes of a grid, as sets of grid cells.    *)
(* Everything yapCAD promises of such solids is exact here: volume is the    *)
(* number of cells, area the number of exposed cell faces, transforms are    *)
(* grid isometries (and whole-number scalings), boolean operations are the   *)
(* set operations.  The length of a cell is the implementation's business.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Cell(x, y, z) == <<x, y, z>>
Box(lo, d) == { <<x, y, z>> : x \in lo[1]..(lo[1] + d[1] - 1), y \in lo[2]..(lo[2] + d[2] - 1), z \in lo[3]..(lo[3] + d[3] - 1) }

\* cell (x, y) is inside a rectilinear outline: parity of the vertical edges to its right
Edge(p, i) == <<p[i], p[IF i = Len(p) THEN 1 ELSE i + 1]>>
Spans(e, x, y) == /\ e[1][1] = e[2][1] /\ e[1][1] > x
                  /\ ((e[1][2] <= y /\ e[2][2] > y) \/ (e[2][2] <= y /\ e[1][2] > y))
Within(p, x, y) == Cardinality({ i \in 1..Len(p) : Spans(Edge(p, i), x, y) }) % 2 = 1
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Plan(p, holes) == { c \in (Min({p[i][1] : i \in 1..Len(p)})..Max({p[i][1] : i \in 1..Len(p)})) \X
                          (Min({p[i][2] : i \in 1..Len(p)})..Max({p[i][2] : i \in 1..Len(p)})) :
                    Within(p, c[1], c[2]) /\ \A h \in 1..Len(holes) : ~Within(holes[h], c[1], c[2]) }
\* extrusion of a plan by h cells upwards (dir 1) or downwards (dir -1) from height z
Extruded(p, holes, z, h, dir) == { <<c[1], c[2], k>> : c \in Plan(p, holes), k \in (IF dir > 0 THEN z..(z + h - 1) ELSE (z - h)..(z - 1)) }

----------------------------------------------------------------------------
(* measures                                                                  *)
Dirs == { <<1, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, -1, 0>>, <<0, 0, 1>>, <<0, 0, -1>> }
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Area(S) == Cardinality({ f \in S \X Dirs : Plus(f[1], f[2]) \notin S })
Bounds(S) == IF S = {} THEN <<>>
             ELSE << [i \in 1..3 |-> Min({c[i] : c \in S})], [i \in 1..3 |-> Max({c[i] : c \in S}) + 1] >>
\* the grid planes holding faces of a solid; solids without common planes are in general position
Faces(S) == { <<a, c[a] + d>> : <<c, a, d>> \in { q \in S \X (1..3) \X {0, 1} :
                Plus(q[1], [i \in 1..3 |-> IF i # q[2] THEN 0 ELSE IF q[3] = 1 THEN 1 ELSE -1]) \notin S } }
Flush(A, B) == Faces(A) \cap Faces(B) # {}
\* two cells meeting in an edge only: the boundary is not a manifold there
Odd(S) == \E c \in S, a \in {1, -1}, b \in {1, -1} : \E q \in {<<1, 2>>, <<1, 3>>, <<2, 3>>} :
            LET u == [i \in 1..3 |-> IF i = q[1] THEN a ELSE 0]
                v == [i \in 1..3 |-> IF i = q[2] THEN b ELSE 0]
            IN Plus(c, u) \notin S /\ Plus(c, v) \notin S /\ Plus(Plus(c, u), v) \in S
Show(S) == [vol |-> Cardinality(S), area |-> Area(S), box |-> Bounds(S), tight |-> TRUE, normals |-> TRUE]

----------------------------------------------------------------------------
(* maps, on doubled coordinates of cell centres                              *)
Mid(c) == [i \in 1..3 |-> 2 * c[i] + 1]
Low(m) == [i \in 1..3 |-> (m[i] - 1) \div 2]
Seq3(f) == <<f[1], f[2], f[3]>>
Quarter(ax, v) == CASE ax = "x" -> <<v[1], -v[3], v[2]>>
                    [] ax = "y" -> <<v[3], v[2], -v[1]>>
                    [] ax = "z" -> <<-v[2], v[1], v[3]>>
                    [] ax = "-x" -> <<v[1], v[3], -v[2]>>
                    [] ax = "-y" -> <<-v[3], v[2], v[1]>>
                    [] ax = "-z" -> <<v[2], -v[1], v[3]>>
                    [] ax = "d" -> <<v[3], v[1], v[2]>>      \* a third of a turn about (1,1,1)
RECURSIVE Turn(_, _, _)
Turn(ax, k, v) == IF k = 0 THEN v ELSE Turn(ax, k - 1, Quarter(ax, v))
Period(ax) == IF ax = "d" THEN 3 ELSE 4
Rotated(S, ax, k, c2) == { Seq3(Low(Plus(c2, Turn(ax, k % Period(ax), Minus(Mid(c), c2))))) : c \in S }
Moved(S, v) == { Plus(c, v) : c \in S }
Sign(pl) == CASE pl = "xy" -> <<1, 1, -1>> [] pl = "xz" -> <<1, -1, 1>> [] pl = "yz" -> <<-1, 1, 1>>
Mirrored(S, pl) == { Seq3(Low([i \in 1..3 |-> Sign(pl)[i] * Mid(c)[i]])) : c \in S }
\* whole factors about a grid point; a negative factor also reflects
Lo1(x, s, c) == IF s > 0 THEN c + s * (x - c) ELSE c + s * (x + 1 - c)
Abs(n) == IF n < 0 THEN -n ELSE n
Scaled(S, s, c) == UNION { Box([i \in 1..3 |-> Lo1(a[i], s[i], c[i])], [i \in 1..3 |-> Abs(s[i])]) : a \in S }

Bool(op, A, B) == CASE op = "union" -> A \cup B [] op = "intersection" -> A \cap B [] op = "difference" -> A \ B

----------------------------------------------------------------------------
(* stacking: entries are handles, or gaps as negative numbers                *)
Axis(a) == CASE a = "x" -> 1 [] a = "y" -> 2 [] a = "z" -> 3
Ref(b, i, align) == CASE align = "min" -> 2 * b[1][i] [] align = "max" -> 2 * b[2][i] [] OTHER -> b[1][i] + b[2][i]
RECURSIVE Stack(_, _, _, _, _, _, _)
Stack(live, es, ax, cur, gap, align, ref) ==
  IF es = <<>> THEN <<>>
  ELSE IF Head(es) < 0 THEN Stack(live, Tail(es), ax, cur - Head(es), gap, align, ref)
  ELSE LET S == live[Head(es)].cells
           b == Bounds(S)
           r == IF ref = <<>> THEN [i \in 1..3 |-> Ref(b, i, align)] ELSE ref
           v == [i \in 1..3 |-> IF i = ax THEN cur - b[1][i] ELSE (r[i] - Ref(b, i, align)) \div 2]
       IN <<Moved(S, v)>> \o Stack(live, Tail(es), ax, cur + (b[2][ax] - b[1][ax]) + gap, gap, align, r)
\* whether centring moves by whole cells only
Whole(live, es, ax, align) ==
  align # "center" \/ \A i \in 1..Len(es), j \in 1..Len(es) : (es[i] > 0 /\ es[j] > 0) =>
     \A a \in 1..3 : a = ax \/ (Ref(Bounds(live[es[i]].cells), a, align) - Ref(Bounds(live[es[j]].cells), a, align)) % 2 = 0

RECURSIVE Row(_, _, _), Ring(_, _, _, _, _)
Row(S, n, v) == IF n = 0 THEN <<>> ELSE Append(Row(S, n - 1, v), Moved(S, [i \in 1..3 |-> (n - 1) * v[i]]))
Ring(S, n, ax, q, c2) == IF n = 0 THEN <<>> ELSE Append(Ring(S, n - 1, ax, q, c2), Rotated(S, ax, (n - 1) * q, c2))

----------------------------------------------------------------------------
VInit(i) == [live |-> <<>>]
New(st, Ss) == [st EXCEPT !.live = @ \o [i \in 1..Len(Ss) |-> [cells |-> Ss[i], obj |-> FALSE]]]
Made(st, Ss) == [st |-> New(st, Ss), obs |-> [res |-> "ok", new |-> [i \in 1..Len(Ss) |-> Show(Ss[i])], kept |-> TRUE]]
\* a transform of a plain solid makes a new one; a wrapper changes in place
Change(st, i, S) == IF st.live[i].obj
                    THEN [st |-> [st EXCEPT !.live[i].cells = S], obs |-> [res |-> "ok", new |-> <<Show(S)>>, kept |-> TRUE]]
                    ELSE Made(st, <<S>>)
Err(st) == [st |-> st, obs |-> [res |-> "exc:ValueError", new |-> <<>>, kept |-> TRUE]]
Planes == {"xy", "xz", "yz"}
Closure(S) == { Plus(c, <<a, b, d>>) : c \in S, a \in {0, 1}, b \in {0, 1}, d \in {0, 1} }

VApply(st, op) ==
  LET A == IF "i" \in DOMAIN op THEN st.live[op.i].cells ELSE {}
      B == IF "j" \in DOMAIN op THEN st.live[op.j].cells ELSE {}
      any == [st |-> st, obs |-> [any |-> TRUE]]
  IN CASE op.k = "box" -> Made(st, <<Box(op.lo, op.d)>>)
       [] op.k = "ext" -> IF op.h <= 0 THEN Err(st) ELSE Made(st, <<Extruded(op.p, op.holes, op.z, op.h, op.dir)>>)
       [] op.k = "wrap" -> [st |-> [st EXCEPT !.live = Append(@, [cells |-> A, obj |-> TRUE])],
                            obs |-> [res |-> "ok", new |-> <<Show(A)>>, kept |-> TRUE]]
       [] op.k = "copy" -> Made(st, <<A>>)
       [] op.k = "tr" -> Change(st, op.i, Moved(A, op.v))
       [] op.k = "rot" -> Change(st, op.i, Rotated(A, op.ax, op.q, op.c2))
       [] op.k = "mir" -> IF op.pl \in Planes THEN Change(st, op.i, Mirrored(A, op.pl)) ELSE Err(st)
       [] op.k = "scl" -> Change(st, op.i, Scaled(A, op.s, op.c))
       \* faces in common planes leave sheets without volume, which float arithmetic cannot avoid
       [] op.k = "bool" -> IF ~Flush(A, B) THEN Made(st, <<Bool(op.op, A, B)>>)
                           ELSE [st |-> st, obs |-> [res |-> "ok", vol |-> Cardinality(Bool(op.op, A, B)), kept |-> TRUE]]
       [] op.k = "stack" -> IF ~Whole(st.live, op.es, Axis(op.ax), op.align) THEN any
                            ELSE Made(st, Stack(st.live, op.es, Axis(op.ax), op.start, op.gap, op.align, <<>>))
       [] op.k = "row" -> IF op.n < 1 THEN Err(st) ELSE Made(st, Row(A, op.n, op.v))
       [] op.k = "ring" -> IF op.n < 1 THEN Err(st)
                           ELSE Made(st, Ring(A, op.n, op.ax, IF op.n = 1 THEN 0 ELSE IF op.full THEN 4 \div op.n ELSE op.q, op.c2))
       \* points in quarters of a cell, none on a grid plane
       [] op.k = "at" -> [st |-> st, obs |-> [res |-> "ok", new |-> <<>>, kept |-> TRUE,
                          inside |-> [n \in 1..Len(op.pts) |-> <<op.pts[n][1] \div 4, op.pts[n][2] \div 4, op.pts[n][3] \div 4>> \in A]]]
       [] op.k = "meet" -> IF A = {} \/ B = {} THEN [st |-> st, obs |-> [res |-> "ok", new |-> <<>>, kept |-> TRUE, meet |-> FALSE]]
                           ELSE IF A \cap B # {} THEN [st |-> st, obs |-> [res |-> "ok", new |-> <<>>, kept |-> TRUE, meet |-> TRUE]]
                           ELSE IF Closure(A) \cap Closure(B) = {} THEN [st |-> st, obs |-> [res |-> "ok", new |-> <<>>, kept |-> TRUE, meet |-> FALSE]]
                           ELSE any
       \* the library's own measures; edges shared by four faces are left open
       [] op.k = "measure" -> IF Odd(A) THEN any
                              ELSE [st |-> st, obs |-> [res |-> "ok", new |-> <<>>, kept |-> TRUE, closed |-> TRUE, volume |-> Cardinality(A), box |-> Bounds(A)]]
       \* the mesh engine without external help, on separately made boxes
       [] op.k = "native" -> [st |-> st, obs |-> [res |-> "ok", vol |-> Cardinality(Bool(op.op, Box(op.a.lo, op.a.d), Box(op.b.lo, op.b.d)))]]

VGood(st) == \A i \in 1..Len(st.live) : \A c \in st.live[i].cells : Len(c) = 3
=============================================================================
