-------------------------------- MODULE Path --------------------------------
(* Space paths made of straight lines and circular arcs, and their parts.     *)
(* A position is named by the segment of the whole path it lies on and by     *)
(* how far along that segment it lies, in Unit-ths.  A path is a sequence of  *)
(* pieces [s, lo, hi] of the whole path; its parameter runs uniformly over    *)
(* the pieces: parameter (i - 1 + j/4) / n is a quarter j of piece i of n.    *)
(* whole: sequence of [k (line|arc), w]: w is the length of a line, or radius *)
(* times the number of quarter turns of an arc.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Unit == 256
Piece(s, lo, hi) == [s |-> s, lo |-> lo, hi |-> hi]
Whole(w) == [i \in 1..Len(w) |-> Piece(i, 0, Unit)]
\* the end of a segment is the start of the next one
Label(w, s, u) == IF u = Unit /\ s < Len(w) THEN [s |-> s + 1, u |-> 0] ELSE [s |-> s, u |-> u]
At(p, i, j) == p[i].lo + ((p[i].hi - p[i].lo) * j) \div 4
PosAt(w, p, i, j) == Label(w, p[i].s, At(p, i, j))
Quarterable(p) == \A i \in 1..Len(p) : (p[i].hi - p[i].lo) % 4 = 0
Ord(i, j) == 4 * (i - 1) + j
\* the part between parameters (i, j) and (k, l)
Sub(p, i, j, k, l) ==
  LET m == IF l = 0 THEN k - 1 ELSE k
      whole == [x \in 1..(m - i + 1) |->
                 LET y == i + x - 1 IN
                 Piece(p[y].s, IF y = i THEN At(p, y, j) ELSE p[y].lo, IF y = k THEN At(p, y, l) ELSE p[y].hi)]
  IN SelectSeq(whole, LAMBDA q : q.lo < q.hi)
\* lengths: a Unit-ths of a millimetre of line, b Unit-ths of a millimetre of radius times quarter turns of arc
Zero == [a |-> 0, b |-> 0]
Plus(x, y) == [a |-> x.a + y.a, b |-> x.b + y.b]
PieceLen(w, q) == IF w[q.s].k = "line" THEN [a |-> w[q.s].w * (q.hi - q.lo), b |-> 0] ELSE [a |-> 0, b |-> w[q.s].w * (q.hi - q.lo)]
RECURSIVE LenFrom(_, _, _)
LenFrom(w, p, i) == IF i > Len(p) THEN Zero ELSE Plus(PieceLen(w, p[i]), LenFrom(w, p, i + 1))
Length(w, p) == LenFrom(w, p, 1)
LenTo(w, p, i, j) == IF Ord(i, j) = 0 THEN Zero ELSE Length(w, Sub(p, 1, 0, i, j))
\* the fewest parts shorter than m4 quarters of a millimetre (pi = 355/113)
Fit(w, p, m4) ==
  LET L == Length(w, p) IN (226 * L.a + 355 * L.b) \div (m4 * (Unit \div 4) * 226)
Ret(s, o) == [st |-> s, obs |-> o]
PInit(i) == [w |-> i.w, ps |-> << Whole(i.w) >>]
PApply(s, op) ==
  IF "p" \in DOMAIN op /\ op.p > Len(s.ps) THEN Ret(s, [res |-> "none"])
  ELSE
  CASE op.k = "eval" -> Ret(s, [res |-> "ok", at |-> PosAt(s.w, s.ps[op.p], op.i, op.j), dir |-> TRUE, same |-> TRUE])
    [] op.k = "beyond" ->
         LET p == s.ps[op.p] IN
         Ret(s, [res |-> "ok", at |-> IF op.end THEN PosAt(s.w, p, Len(p), 4) ELSE PosAt(s.w, p, 1, 0)])
    [] op.k = "sub" ->
         LET p == s.ps[op.p] IN
         IF Ord(op.i, op.j) >= Ord(op.m, op.l) THEN Ret(s, [res |-> "exc:ValueError"])
         ELSE LET q == Sub(p, op.i, op.j, op.m, op.l) IN Ret([s EXCEPT !.ps = Append(@, q)], [res |-> "ok", q |-> q, kept |-> TRUE])
    [] op.k = "stretch" ->           \* from a to b millionths of one piece: one piece, of that length, halved at its middle
         Ret(s, [res |-> "ok", n |-> 1, lo |-> op.a, hi |-> op.b, mid |-> (op.a + op.b) \div 2, len |-> op.b - op.a, to |-> op.b, par |-> op.b, kept |-> TRUE])
    [] op.k = "len" -> Ret(s, [res |-> "ok", len |-> Length(s.w, s.ps[op.p])])
    [] op.k = "tolen" -> Ret(s, [res |-> "ok", len |-> LenTo(s.w, s.ps[op.p], op.i, op.j)])
    [] op.k = "topar" -> Ret(s, [res |-> "ok", t |-> Ord(op.i, op.j)])
    [] op.k = "outside" -> Ret(s, [res |-> "ok", t |-> IF op.end THEN 4 * Len(s.ps[op.p]) ELSE 0])
    [] op.k = "cuts" -> Ret(s, [res |-> "ok", n |-> Fit(s.w, s.ps[op.p], op.m4), rising |-> TRUE, short |-> TRUE, even |-> TRUE])
    [] op.k = "empty" -> Ret(s, [res |-> "ok", eval |-> "exc:ValueError", sub |-> 0, len |-> 0, t |-> 0])
PGood(s) == \A i \in 1..Len(s.ps) : Len(s.ps[i]) > 0 /\ \A j \in 1..Len(s.ps[i]) : s.ps[i][j].lo < s.ps[i][j].hi
=============================================================================
