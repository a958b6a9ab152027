-------------------------------- MODULE Oct --------------------------------
(* Spatial index (quad- or octtree) over geometry, and the index of a surface *)
(* mesh: a query answers exactly the elements whose bounding box overlaps or  *)
(* touches the query box, whatever the split points, depth limits and the     *)
(* history of additions.  Coordinates are half units; an element is given by  *)
(* its box [lo, hi] and a tag ("" when untagged).                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a < b THEN b ELSE a
OverlapsN(a, b, n) == \A k \in 1..n : a.lo[k] <= b.hi[k] /\ b.lo[k] <= a.hi[k]
RECURSIVE Hits(_, _, _, _)
Hits(els, q, n, i) ==
  IF i > Len(els) THEN <<>>
  ELSE (IF OverlapsN(els[i], q, n) THEN <<[i |-> i, tag |-> els[i].tag]>> ELSE <<>>) \o Hits(els, q, n, i + 1)
Dims(n) == IF n = 8 THEN 3 ELSE 2

\* ---- the tree itself (two dimensions), as a refinement of the answer ----
\* centers are kept doubled at every level by scaling, so boxes are lo/hi in units that stay integral
Quads(b, box, c) ==
  (IF b.lo[1] < c[1] /\ b.lo[2] < c[2] THEN {3} ELSE {}) \cup (IF b.lo[1] < c[1] /\ b.hi[2] >= c[2] THEN {2} ELSE {})
  \cup (IF b.hi[1] >= c[1] /\ b.lo[2] < c[2] THEN {4} ELSE {}) \cup (IF b.hi[1] >= c[1] /\ b.hi[2] >= c[2] THEN {1} ELSE {})
Sub(box, c, j) ==
  CASE j = 1 -> [lo |-> c, hi |-> box.hi]
    [] j = 2 -> [lo |-> <<box.lo[1], c[2]>>, hi |-> <<c[1], box.hi[2]>>]
    [] j = 3 -> [lo |-> box.lo, hi |-> c]
    [] j = 4 -> [lo |-> <<c[1], box.lo[2]>>, hi |-> <<box.hi[1], c[2]>>]
Mid(box) == <<(box.lo[1] + box.hi[1]) \div 2, (box.lo[2] + box.hi[2]) \div 2>>
RECURSIVE Search(_, _, _, _, _, _, _)
\* elements (index set) of els found for query q below a node covering box, split at c
Search(els, idx, q, box, c, depth, leaf) ==
  IF idx = {} THEN {}
  ELSE IF Cardinality(idx) <= leaf \/ depth = 0 \/ box.hi[1] - box.lo[1] < 2 \/ box.hi[2] - box.lo[2] < 2
  THEN IF OverlapsN(box, q, 2) THEN { i \in idx : OverlapsN(els[i], q, 2) } ELSE {}
  ELSE UNION { LET b == Sub(box, c, j) IN Search(els, { i \in idx : j \in Quads(els[i], box, c) }, q, b, Mid(b), depth - 1, leaf) : j \in 1..4 }
Hull(els) ==
  LET Lo(k) == CHOOSE x \in { els[i].lo[k] : i \in 1..Len(els) } : \A i \in 1..Len(els) : x <= els[i].lo[k]
      Hi(k) == CHOOSE x \in { els[i].hi[k] : i \in 1..Len(els) } : \A i \in 1..Len(els) : x >= els[i].hi[k]
  IN [lo |-> <<Lo(1), Lo(2)>>, hi |-> <<Hi(1), Hi(2)>>]

\* ---- histories ----
\* t: [n, els, given]; m: boxes of the triangles of a mesh; old: earlier meshes
GInit(i) == [t |-> [n |-> i.n, els |-> i.els], given |-> Len(i.els), m |-> i.mesh]
Ret(s, o) == [st |-> s, obs |-> o]
Ok(s) == Ret(s, [res |-> "ok"])
Shift(b, d) == [lo |-> <<b.lo[1] + d[1], b.lo[2] + d[2], b.lo[3] + d[3]>>, hi |-> <<b.hi[1] + d[1], b.hi[2] + d[2], b.hi[3] + d[3]>>, tag |-> b.tag]
Flip(b, k) == [b EXCEPT !.lo[k] = 0 - b.hi[k], !.hi[k] = 0 - b.lo[k]]
Grow(b, f) == [b EXCEPT !.lo = <<b.lo[1] * f, b.lo[2] * f, b.lo[3] * f>>, !.hi = <<b.hi[1] * f, b.hi[2] * f, b.hi[3] * f>>]
\* quarter turn about z
Turn(b) == [b EXCEPT !.lo = <<0 - b.hi[2], b.lo[1], b.lo[3]>>, !.hi = <<0 - b.lo[2], b.hi[1], b.hi[3]>>]
Each(m, F(_)) == [i \in 1..Len(m) |-> F(m[i])]
GApply(s, op) ==
  CASE op.k = "add" -> Ok([s EXCEPT !.t.els = Append(@, op.e)])
    [] op.k \in {"center", "limits"} -> Ok(s)
    [] op.k = "bad" -> Ret(s, [res |-> "exc:ValueError"])
    [] op.k = "query" -> Ret(s, [res |-> "ok", hits |-> Hits(s.t.els, op.q, Dims(s.t.n), 1)])
    [] op.k = "given" -> Ret(s, [res |-> "ok", len |-> s.given])
    [] op.k = "mquery" -> Ret(s, [res |-> "ok", hits |-> Hits(s.m, op.q, 3, 1)])
    [] op.k = "move" -> Ok([s EXCEPT !.m = Each(@, LAMBDA b : Shift(b, op.d))])
    [] op.k = "turn" -> Ok([s EXCEPT !.m = Each(@, Turn)])
    [] op.k = "flip" -> Ok([s EXCEPT !.m = Each(@, LAMBDA b : Flip(b, op.a))])
    [] op.k = "grow" -> Ok([s EXCEPT !.m = Each(@, LAMBDA b : Grow(b, op.f))])
    [] op.k = "overlap" -> Ret(s, [res |-> "ok", yes |-> OverlapsN(op.a, op.b, op.n)])
GGood(s) == \A i \in 1..Len(s.t.els) : \A k \in 1..3 : s.t.els[i].lo[k] <= s.t.els[i].hi[k]
=============================================================================
