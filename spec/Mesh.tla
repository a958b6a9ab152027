-------------------------------- MODULE Mesh --------------------------------
(* Triangle meshes in files.  A mesh is a sequence of triangles with integer  *)
(* corners; writing keeps every triangle that has an area, in order; reading  *)
(* a file that nothing has damaged gives those triangles back, however it was *)
(* laid out, and a damaged file is refused.  STEP files group the triangles   *)
(* into connected shells, closed when every edge has two triangles.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Cross(a, b, c) ==
  LET u == [i \in 1..3 |-> b[i] - a[i]]
      v == [i \in 1..3 |-> c[i] - a[i]]
  IN <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Flat(f) == Cross(f[1], f[2], f[3]) = <<0, 0, 0>>
Real(m) == SelectSeq(m, LAMBDA f : ~Flat(f))

Corners(m) == UNION { {m[i][1], m[i][2], m[i][3]} : i \in 1..Len(m) }
EdgesOf(f) == { {f[1], f[2]}, {f[2], f[3]}, {f[3], f[1]} }
Arcs(f) == { <<f[1], f[2]>>, <<f[2], f[3]>>, <<f[3], f[1]>> }
Users(m, e) == { i \in 1..Len(m) : e \in EdgesOf(m[i]) }
AllEdges(m) == UNION { EdgesOf(m[i]) : i \in 1..Len(m) }
Closed(m) == \A e \in AllEdges(m) : Cardinality(Users(m, e)) = 2
Outward(m) == \A i \in 1..Len(m) : \A a \in Arcs(m[i]) : \E j \in 1..Len(m) : <<a[2], a[1]>> \in Arcs(m[j])

(* connected groups of triangles, each named by its first *)
RECURSIVE Spread(_, _)
Spread(m, S) == LET es == UNION { EdgesOf(m[i]) : i \in S }
                    T == { i \in 1..Len(m) : EdgesOf(m[i]) \cap es # {} }
                IN IF T \subseteq S THEN S ELSE Spread(m, S \cup T)
Group(m, i) == Spread(m, {i})
Ordered(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Shells(m) ==
  LET gs == { Group(m, i) : i \in 1..Len(m) }
      firsts == Ordered({ MinOf(g) : g \in gs })
  IN [ k \in 1..Len(firsts) |->
         LET g == Group(m, firsts[k])
             idx == Ordered(g)
             sub == [ j \in 1..Len(idx) |-> m[idx[j]] ]
         IN [ closed |-> Closed(sub), faces |-> idx ] ]

Box(m) == IF m = <<>> THEN <<>>
          ELSE LET C == Corners(m)
                   Lo(i) == CHOOSE x \in {c[i] : c \in C} : \A y \in {c[i] : c \in C} : x <= y
                   Hi(i) == CHOOSE x \in {c[i] : c \in C} : \A y \in {c[i] : c \in C} : x >= y
               IN << [i \in 1..3 |-> Lo(i)], [i \in 1..3 |-> Hi(i)] >>

(* state: meshes in memory, files *)
MeInit(i) == [live |-> <<>>, files |-> <<>>]

Damage == {"cut", "drop", "word", "count"}

MeApply(st, op) ==
  CASE op.k = "make" ->
       [ st |-> [st EXCEPT !.live = Append(@, op.faces)], obs |-> [res |-> "ok"] ]
  [] op.k = "stl" ->
       [ st |-> [st EXCEPT !.files = Append(@, [kind |-> op.fmt, m |-> Real(st.live[op.i]), bad |-> FALSE])],
         obs |-> [res |-> "ok", kept |-> TRUE, count |-> Len(Real(st.live[op.i]))] ]
  [] op.k = "edit" ->
       [ st |-> [st EXCEPT !.files[op.f].bad = @ \/ op.how \in Damage], obs |-> [res |-> "ok"] ]
  [] op.k = "read" ->
       LET f == st.files[op.f] IN
       IF f.bad
       THEN [ st |-> st, obs |-> [res |-> "exc:ValueError"] ]
       ELSE [ st |-> [st EXCEPT !.live = Append(@, f.m)],
              obs |-> [res |-> "ok", tris |-> f.m, verts |-> IF op.dedup THEN Cardinality(Corners(f.m)) ELSE 3 * Len(f.m),
                       closed |-> Closed(f.m), box |-> Box(f.m), normals |-> TRUE] ]
  [] op.k = "step" ->
       LET m == Real(st.live[op.i]) IN
       IF m = <<>>
       THEN [ st |-> st, obs |-> [res |-> "exc:ValueError", kept |-> TRUE] ]
       ELSE [ st |-> st, obs |-> [res |-> "ok", kept |-> TRUE, shells |-> Shells(m), points |-> Cardinality(Corners(m)),
                                  edges |-> Cardinality(AllEdges(m)), sound |-> TRUE, name |-> op.name] ]

MeGood(st) == \A i \in 1..Len(st.files) : \A j \in 1..Len(st.files[i].m) : ~Flat(st.files[i].m[j])
=============================================================================
