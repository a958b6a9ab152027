---- MODULE OctMC ----
(* The tree refines the plain answer: every arrangement of up to three boxes, *)
(* every query, every split point inside the hull, depth limits and leaf size. *)
EXTENDS Oct, Json, IOUtils
CONSTANTS Span, Boxes
VARIABLES els, q, c, par
R == { [lo |-> <<a, b>>, hi |-> <<a + u, b + v>>, tag |-> ""] : a \in 0..Span, b \in 0..Span, u \in 0..Span, v \in 0..Span }
In(b) == b.hi[1] <= Span /\ b.hi[2] <= Span
Rs == { b \in R : In(b) }
Even(b) == [b EXCEPT !.lo = <<4 * b.lo[1], 4 * b.lo[2]>>, !.hi = <<4 * b.hi[1], 4 * b.hi[2]>>]
Es == { Even(b) : b \in Rs }
Seqs(n) == UNION { [1..k -> Es] : k \in 1..n }
Splits(h) == { x \in { <<x, y>> : x \in { 2 * i : i \in 0..(2 * Span) }, y \in { 2 * i : i \in 0..(2 * Span) } } :
                 x = Mid(h) \/ (Len(els) < 3 /\ \A k \in 1..2 : h.lo[k] <= x[k] /\ x[k] <= h.hi[k] /\ (x[k] = h.lo[k] \/ x[k] = h.hi[k] \/ x[k] = 2)) }
MInit == /\ els \in Seqs(Boxes)
         /\ c \in Splits(Hull(els)) \cup {Mid(Hull(els))}
         /\ par \in IF Len(els) < 3 THEN {<<3, 1>>, <<1, 1>>} ELSE {<<3, 1>>}
         /\ q = 0
MNext == FALSE /\ UNCHANGED <<els, q, c, par>>
InvRefines == \A x \in Es : LET h == Hits(els, x, 2, 1) IN Search(els, 1..Len(els), x, Hull(els), c, par[1], par[2]) = { h[i].i : i \in 1..Len(h) }
\* a larger query never answers less, and the same element is answered once
InvGrow == \A x \in Es, y \in Es :
   (\A k \in 1..2 : y.lo[k] <= x.lo[k] /\ x.hi[k] <= y.hi[k]) =>
   LET h == Hits(els, x, 2, 1) g == Hits(els, y, 2, 1)
   IN /\ Cardinality({ h[i].i : i \in 1..Len(h) }) = Len(h)
      /\ { h[i].i : i \in 1..Len(h) } \subseteq { g[i].i : i \in 1..Len(g) }
====
