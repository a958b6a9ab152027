-------------------------------- MODULE Seg --------------------------------
(* Cutting a swept element into parts that are made one by one and joined    *)
(* again.  The spine has n segments; positions are its parameter in 64ths of *)
(* a segment, 0..64 n.  A cut: [t, w (a|b|none: which part carries the tab), *)
(* len (override of the tab length, 0 if none), c (clearance in hundredths), *)
(* f (how the work goes wrong: none|split|union), id (element named)].       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE SortT(_)
SortT(q) == IF q = <<>> THEN <<>>
            ELSE LET m == CHOOSE i \in 1..Len(q) : \A j \in 1..Len(q) : q[i].t < q[j].t \/ (q[i].t = q[j].t /\ i <= j)
                 IN << q[m] >> \o SortT(SubSeq(q, 1, m - 1) \o SubSeq(q, m + 1, Len(q)))
Mx(a, b) == IF a > b THEN a ELSE b
Dim(e, x) == e.d[x]                                   \* outer width and height, hundredths of a millimetre
Joins(e, op) == op.build /\ e.wall > 0
TabLen(e, c) == IF c.len > 0 THEN c.len ELSE 3 * Mx(e.d[1], e.d[2])
Spec(e, c) == [at |-> c.t, len |-> TabLen(e, c), clear |-> c.c]
\* the outcome of the joint made at a cut: a | b (tab with that part) | loose (separate connector) | none
Joint(e, op, c) == IF ~Joins(e, op) THEN "none" ELSE IF ~op.union \/ c.w = "none" \/ c.f = "union" THEN "loose" ELSE c.w
Done(q) == SelectSeq(q, LAMBDA c : c.f # "split")
Result(e, op) ==
  LET q == Done(SortT(op.cuts)) n == Len(q)
      lo(i) == IF i = 1 THEN 0 ELSE q[i - 1].t
      hi(i) == IF i = n + 1 THEN 64 * e.n ELSE q[i].t
      J(i) == Joint(e, op, q[i])
      tabs(i) == (IF i > 1 /\ J(i - 1) = "b" THEN << q[i - 1].t >> ELSE <<>>) \o (IF i <= n /\ J(i) = "a" THEN << q[i].t >> ELSE <<>>)
      takes(i) == (i > 1 /\ J(i - 1) = "a") \/ (i <= n /\ J(i) = "b")
      sort(i) == IF Len(tabs(i)) > 0 THEN "male" ELSE IF takes(i) THEN "female" ELSE "none"
      mates(i) == (IF i > 1 THEN << i - 1 >> ELSE <<>>) \o (IF i <= n THEN << i + 1 >> ELSE <<>>)
      loose == SelectSeq(q, LAMBDA c : Joint(e, op, c) = "loose")
  IN [res |-> "ok",
      parts |-> [i \in 1..(n + 1) |-> [lo |-> lo(i), hi |-> hi(i), solid |-> << lo(i), hi(i) >>, tabs |-> tabs(i), tab |-> Len(tabs(i)) > 0,
                                        type |-> sort(i), mates |-> mates(i), graph |-> mates(i)]],
      loose |-> [i \in 1..Len(loose) |-> Spec(e, loose[i])],
      warn |-> (Len(op.cuts) - n) + Cardinality({ i \in 1..n : Joins(e, op) /\ op.union /\ q[i].w # "none" /\ q[i].f = "union" }),
      males |-> Cardinality({ i \in 1..(n + 1) : sort(i) = "male" }), females |-> Cardinality({ i \in 1..(n + 1) : sort(i) = "female" }),
      ids |-> TRUE, look |-> TRUE, kept |-> TRUE, told |-> TRUE]
\* a tab reaches half its length to both sides of the cut, but not beyond the ends (lengths in hundredths; straight spines)
Tab(e, L, at, len) == LET h == len \div 2 IN
  [lo |-> IF at - h < 0 THEN 0 ELSE at - h, hi |-> IF at + h > L THEN L ELSE at + h]
Inner(e, c) == << e.d[1] - 2 * e.wall - 2 * c, e.d[2] - 2 * e.wall - 2 * c >>
Fits(e, c) == Inner(e, c)[1] > 0 /\ Inner(e, c)[2] > 0
\* ---- closed rings ----
RingCuts(t, n) == [i \in 1..(Len(t) + 1) |-> [lo |-> IF i = 1 THEN 0 ELSE t[i - 1], hi |-> IF i = Len(t) + 1 THEN 64 * n ELSE t[i], out |-> TRUE]]
RECURSIVE SortI(_)
SortI(q) == IF q = <<>> THEN <<>>
            ELSE LET m == CHOOSE i \in 1..Len(q) : \A j \in 1..Len(q) : q[i] <= q[j] IN << q[m] >> \o SortI(SubSeq(q, 1, m - 1) \o SubSeq(q, m + 1, Len(q)))
\* distance on a ring of length C, in units of C/N
Around(a, b, N) == LET d == (a - b) % N e == IF d > N - d THEN N - d ELSE d IN e
Clear(x, holes, m, N) == \A i \in 1..Len(holes) : Around(x, holes[i], N) > m
Parts(op) == IF op.want > 0 THEN op.want ELSE (op.C + op.max - 1) \div op.max
Ideal(op, k) == (op.N \div Parts(op)) * k
\* distance of the nearest free place for the k-th cut
Near(op, k) == LET S == { d \in 0..(op.N \div 2 - 1) : \E s \in {1, 0 - 1} : LET x == Ideal(op, k) + s * d IN x > 0 /\ x < op.N /\ Clear(x, op.holes, op.m, op.N) }
               IN IF S = {} THEN 0 - 1 ELSE CHOOSE d \in S : \A e \in S : d <= e
Avoids(op) ==
  LET n == Parts(op) D == [k \in 1..(n - 1) |-> Near(op, k)] IN
  IF n < 2 THEN [res |-> "ok", n |-> 0, inside |-> TRUE, clear |-> TRUE, even |-> TRUE, near |-> TRUE]
  ELSE IF \A k \in 1..(n - 1) : D[k] = 0 THEN [res |-> "ok", n |-> n - 1, inside |-> TRUE, clear |-> TRUE, even |-> TRUE, near |-> TRUE]
  \* cuts that move less than half a part each stay apart
  ELSE IF \A k \in 1..(n - 1) : D[k] >= 0 /\ 2 * D[k] + 2 * n + 4 < op.N \div n
       THEN [res |-> "ok", n |-> n - 1, inside |-> TRUE, clear |-> TRUE, even |-> FALSE, near |-> TRUE]
  ELSE [any |-> "any"]
Ret(s, o) == [st |-> s, obs |-> o]
EInit(i) == [e |-> i.e, done |-> 0]
EApply(s, op) ==
  LET e == s.e IN
  CASE op.k = "segment" ->
         IF Len(op.cuts) = 0 \/ (\E i \in 1..Len(op.cuts) : op.cuts[i].id # e.id) \/ ~op.solid THEN Ret(s, [res |-> "exc:ValueError"])
         ELSE Ret([s EXCEPT !.done = @ + 1], Result(e, op))
    [] op.k = "cutpoint" -> Ret(s, [res |-> IF op.t > 0 /\ op.t < 100 /\ op.w \in {"a", "b", "none"} THEN "ok" ELSE "exc:ValueError"])
    [] op.k = "tab" -> IF Fits(e, op.c) THEN Ret(s, [res |-> "ok", dim |-> Inner(e, op.c), span |-> Tab(e, op.L, op.at, IF op.len > 0 THEN op.len ELSE 3 * Mx(e.d[1], e.d[2]))])
                       ELSE Ret(s, [res |-> "exc:ValueError"])
    [] op.k = "plug" -> IF Fits(e, op.c)        \* a tab at an end of the spine, and the hole that takes it
                        THEN LET len == IF op.len > 0 THEN op.len ELSE (3 * Mx(e.d[1], e.d[2])) \div 2 IN
                             Ret(s, [res |-> "ok", dim |-> Inner(e, op.c), hole |-> << Inner(e, op.c)[1] + op.c, Inner(e, op.c)[2] + op.c >>, out |-> len, deep |-> len, on |-> TRUE])
                        ELSE Ret(s, [res |-> "exc:ValueError"])
    [] op.k = "plugs" -> IF (op.start \/ op.end) /\ e.wall = 0 THEN Ret(s, [res |-> "exc:ValueError"])
                         ELSE Ret(s, [res |-> "ok", tabs |-> (IF op.start THEN <<"start">> ELSE <<>>) \o (IF op.end THEN <<"end">> ELSE <<>>)])
    [] op.k = "ring" ->
         IF Len(op.ts) = 0 \/ \E i \in 1..Len(op.ts) : op.ts[i] <= 0 \/ op.ts[i] >= 64 * e.n THEN Ret(s, [res |-> "exc:ValueError"])
         ELSE Ret(s, [res |-> "ok", q |-> RingCuts(SortI(op.ts), e.n)])
    [] op.k = "attach" -> Ret(s, [res |-> "ok", on |-> TRUE, inward |-> TRUE, closed |-> TRUE])
    [] op.k = "avoid" -> Ret(s, Avoids(op))
EGood(s) == TRUE
=============================================================================
