-------------------------------- MODULE Col --------------------------------
(* Collision checks of an assembly: parts are unions of integer boxes, placed *)
(* by cube rotations and integer translations; interfaces (gears, threads)    *)
(* registered for parts say which overlaps are meant.                         *)
(* Interface: [n, part, kind (gear|thread), c (centre), v (axis), d2 (twice   *)
(* the diameter), h2 (twice the height), m (module*1000 | pitch*1000),        *)
(* x (pressure angle*100 | 0), hel (helix angle*100), lab (type), int].       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
Has(q, n) == \E i \in 1..Len(q) : q[i].n = n
Get(q, n) == q[CHOOSE i \in 1..Len(q) : q[i].n = n]
PutN(q, e) == IF Has(q, e.n) THEN [i \in 1..Len(q) |-> IF q[i].n = e.n THEN e ELSE q[i]] ELSE Append(q, e)
Without(q, n) == SelectSeq(q, LAMBDA e : e.n # n)

\* ---- placed boxes ----
RotLo(R, b, k) == LET P(j) == IF R[k][j] >= 0 THEN R[k][j] * b.lo[j] ELSE R[k][j] * b.hi[j] IN P(1) + P(2) + P(3)
RotHi(R, b, k) == LET P(j) == IF R[k][j] >= 0 THEN R[k][j] * b.hi[j] ELSE R[k][j] * b.lo[j] IN P(1) + P(2) + P(3)
PlaceBox(T, b) == [lo |-> [k \in 1..3 |-> RotLo(T.R, b, k) + T.t[k]], hi |-> [k \in 1..3 |-> RotHi(T.R, b, k) + T.t[k]]]
Place(T, bs) == [i \in 1..Len(bs) |-> PlaceBox(T, bs[i])]
BLo(bs, k) == LET S == { bs[i].lo[k] : i \in 1..Len(bs) } IN CHOOSE x \in S : \A y \in S : x <= y
BHi(bs, k) == LET S == { bs[i].hi[k] : i \in 1..Len(bs) } IN CHOOSE x \in S : \A y \in S : x >= y
Apart(A, B) == \E k \in 1..3 : BHi(A, k) < BLo(B, k) \/ BHi(B, k) < BLo(A, k)
SameBox(a, b) == \A k \in 1..3 : a.lo[k] = b.lo[k] /\ a.hi[k] = b.hi[k]
Inner(a, b) == \A k \in 1..3 : a.lo[k] < b.hi[k] /\ b.lo[k] < a.hi[k]
\* interiors meet, and not merely as coinciding boxes
Deep(A, B) == \E i \in 1..Len(A), j \in 1..Len(B) : Inner(A[i], B[j]) /\ ~SameBox(A[i], B[j])

\* ---- interfaces ----
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Vec(a, b) == <<b[1] - a[1], b[2] - a[2], b[3] - a[3]>>
Sq(a) == a * a
\* distances in millimetres, diameters doubled; the margin is a tenth of a millimetre
Reach(a, b) == Sq(5 * (a.d2 + b.d2) + 2)
Meet(a, b) ==
  LET w == Vec(a.c, b.c) v == a.v par == Sq(Dot(a.v, b.v)) * 100 >= 99 * Dot(a.v, a.v) * Dot(b.v, b.v)
  IN IF ~par THEN 400 * Dot(w, w) < Reach(a, b)
     ELSE /\ 400 * Sq(Dot(w, v)) < Dot(v, v) * Sq(5 * (a.h2 + b.h2) + 2)
          /\ 400 * (Dot(w, w) * Dot(v, v) - Sq(Dot(w, v))) < Dot(v, v) * Reach(a, b)
Fits(a, b) ==
  /\ a.kind = b.kind
  /\ a.m = b.m
  /\ IF a.kind = "gear" THEN Abs(a.x - b.x) <= 50 ELSE a.int # b.int /\ a.d2 = b.d2
Isos(a, b) == {a.lab, b.lab} \subseteq {"ISO_METRIC", "ISO_METRIC_FINE"}
Warns(a, b) ==
  IF a.kind = "gear"
  THEN (IF (a.hel # 0 \/ b.hel # 0) /\ Abs(a.hel + b.hel) > 50 THEN 1 ELSE 0) + (IF Mn(a.h2, b.h2) * 500 < a.m THEN 1 ELSE 0)
  ELSE IF a.lab # b.lab /\ ~Isos(a, b) THEN 1 ELSE 0
Compat(a, b) == IF Fits(a, b) THEN [ok |-> TRUE, w |-> Warns(a, b)] ELSE [ok |-> FALSE, w |-> 0]
OfPart(r, p) == SelectSeq(r, LAMBDA i : i.part = p)
RECURSIVE Pairs(_, _, _, _)
\* the meeting pairs of interfaces in the order of registration
Pairs(A, B, i, j) ==
  IF i > Len(A) THEN <<>> ELSE IF j > Len(B) THEN Pairs(A, B, i + 1, 1)
  ELSE (IF Meet(A[i], B[j]) THEN << <<A[i], B[j]>> >> ELSE <<>>) \o Pairs(A, B, i, j + 1)
MeetPairs(r, p, q) == Pairs(OfPart(r, p), OfPart(r, q), 1, 1)
Meant(r, p, q) == LET m == MeetPairs(r, p, q) IN Len(m) > 0 /\ \A i \in 1..Len(m) : Fits(m[i][1], m[i][2])
\* names in registration order
NamesOf(r, p, q) ==
  IF ~Meant(r, p, q) THEN <<>>
  ELSE LET m == MeetPairs(r, p, q) S == { m[i][1].n : i \in 1..Len(m) } \cup { m[i][2].n : i \in 1..Len(m) }
           k == SelectSeq(r, LAMBDA e : e.n \in S) IN [i \in 1..Len(k) |-> k[i].n]

\* ---- factories ----
Sizes == << [s |-> "M3", d |-> 3, p |-> 500, l |-> "ISO_METRIC"], [s |-> "M4", d |-> 4, p |-> 700, l |-> "ISO_METRIC"],
            [s |-> "m6", d |-> 6, p |-> 1000, l |-> "ISO_METRIC"], [s |-> "M8", d |-> 8, p |-> 1250, l |-> "ISO_METRIC"],
            [s |-> "M7", d |-> 7, p |-> 875, l |-> "ISO_METRIC"], [s |-> "M4x0.5", d |-> 4, p |-> 500, l |-> "ISO_METRIC_FINE"],
            [s |-> "M1", d |-> 1, p |-> 500, l |-> "ISO_METRIC"], [s |-> "M6x1", d |-> 6, p |-> 1000, l |-> "ISO_METRIC_FINE"] >>
Size(s) == Sizes[CHOOSE i \in 1..Len(Sizes) : Sizes[i].s = s]
Screw(n, part, z, c, len2, int) ==
  [n |-> n, part |-> part, kind |-> "thread", c |-> c, v |-> <<0, 0, 1>>, d2 |-> 2 * z.d, h2 |-> IF len2 = 0 THEN 3 * z.d ELSE len2, m |-> z.p, x |-> 0,
   hel |-> 0, lab |-> z.l, int |-> int]
RECURSIVE Bolts(_, _)
Bolts(op, i) ==
  IF i > Len(op.at) THEN <<>>
  ELSE << Screw(op.n \o "_bolt_" \o ToString(i), op.pa, Size(op.size), op.at[i], op.len2, FALSE),
          Screw(op.n \o "_hole_" \o ToString(i), op.pb, Size(op.size), op.at[i], op.len2, TRUE) >> \o Bolts(op, i + 1)
Gear(n, part, op, t, c) == [n |-> n, part |-> part, kind |-> "gear", c |-> c, v |-> <<0, 0, 1>>, d2 |-> 2 * (op.mod * (t + 2)), h2 |-> op.h2, m |-> op.mod * 1000,
                            x |-> op.x, hel |-> 0, lab |-> "", int |-> FALSE]
Turn4(i, num) == LET q == (4 \div num) * (i - 1) IN IF q = 0 THEN <<1, 0>> ELSE IF q = 1 THEN <<0, 1>> ELSE IF q = 2 THEN <<0 - 1, 0>> ELSE <<0, 0 - 1>>
Planetary(op) ==
  << Gear(op.n \o "_sun_teeth", op.n \o "_SUN_GEAR", op, op.sun, <<0, 0, op.z>>), Gear(op.n \o "_ring_teeth", op.n \o "_RING_HOUSING", op, op.ring, <<0, 0, op.z>>) >>
  \o [i \in 1..op.num |-> LET r == ((op.sun + op.planet) * op.mod) \div 2 IN
        Gear(op.n \o "_planet_" \o ToString(i) \o "_teeth", op.n \o "_PLANET_GEAR_" \o ToString(i), op, op.planet,
             <<r * Turn4(i, op.num)[1], r * Turn4(i, op.num)[2], op.z>>)]

\* ---- the system ----
\* geo: what the provider gives; cache: what the detector holds; regs: the two registries; use: the one in use
GInit(i) == [geo |-> i.geo, cache |-> <<>>, regs |-> <<<<>>, <<>>>>, use |-> 1]
Ret(s, o) == [st |-> s, obs |-> o]
Ok(s) == Ret(s, [res |-> "ok"])
RECURSIVE AddAll(_, _, _)
AddAll(r, q, i) == IF i > Len(q) THEN [r |-> r, ok |-> TRUE]
                   ELSE IF Has(r, q[i].n) THEN [r |-> r, ok |-> FALSE] ELSE AddAll(Append(r, q[i]), q, i + 1)
Added(s, op, q) == LET a == AddAll(s.regs[op.r], q, 1) IN Ret([s EXCEPT !.regs[op.r] = a.r], [res |-> IF a.ok THEN "ok" ELSE "exc:ValueError"])
Fetch(s, p) == IF Has(s.cache, p) THEN s ELSE IF Has(s.geo, p) /\ Len(Get(s.geo, p).bs) > 0 THEN [s EXCEPT !.cache = Append(@, Get(s.geo, p))] ELSE s
NoGeo(s, p) == ~Has(s.cache, p)
\* boxes of a part that cannot be read
Broken(s, p) == Get(s.cache, p).form = "broken"
Failed == [err |-> TRUE, hit |-> "no", meant |-> FALSE, names |-> <<>>]
(* hit: yes | no | any (touching parts judged by sampling) *)
Verdict(s, a, Ta, b, Tb, how) ==
  IF NoGeo(s, a) \/ NoGeo(s, b) \/ Ta.form = "bad" \/ Tb.form = "bad" \/ Broken(s, a) \/ Broken(s, b) THEN Failed
  ELSE LET A == Place(Ta, Get(s.cache, a).bs) B == Place(Tb, Get(s.cache, b).bs)
           hit == IF Apart(A, B) THEN "no" ELSE IF how = "AABB" THEN "yes" ELSE IF Deep(A, B) THEN "yes" ELSE "any"
           r == s.regs[s.use]
       IN [err |-> FALSE, hit |-> hit, meant |-> hit = "yes" /\ Meant(r, a, b), names |-> IF hit = "yes" THEN NamesOf(r, a, b) ELSE <<>>]
Judged(v, how) == [err |-> v.err, hit |-> v.hit, meant |-> v.meant, names |-> v.names, how |-> IF v.err THEN "UNKNOWN" ELSE how, fine |-> TRUE]
RECURSIVE FetchAll(_, _, _)
FetchAll(s, ps, i) == IF i > Len(ps) THEN s ELSE FetchAll(Fetch(s, ps[i].n), ps, i + 1)
Skipped(op, a, b) == \E i \in 1..Len(op.skip) : {op.skip[i][1], op.skip[i][2]} = {a, b}
RECURSIVE All(_, _, _, _)
All(s, op, i, j) ==
  IF i > Len(op.ps) THEN <<>> ELSE IF j > Len(op.ps) THEN All(s, op, i + 1, i + 2)
  ELSE (IF Skipped(op, op.ps[i].n, op.ps[j].n) THEN <<>>
        ELSE << [a |-> op.ps[i].n, b |-> op.ps[j].n, v |-> Verdict(s, op.ps[i].n, op.ps[i].T, op.ps[j].n, op.ps[j].T, "MESH")] >>) \o All(s, op, i, j + 1)
Count(q, P(_)) == Cardinality({ i \in 1..Len(q) : P(q[i].v) })
PairsOf(q, P(_)) == LET k == SelectSeq(q, LAMBDA e : P(e.v)) IN [i \in 1..Len(k) |-> << k[i].a, k[i].b >>]
Summary(q) ==
  LET Hit(v) == v.hit = "yes" Err(v) == v.hit = "yes" /\ ~v.meant Mean(v) == v.meant Fail(v) == v.err
  IN [total |-> Len(q), hits |-> Count(q, Hit), errors |-> Count(q, Err), meant |-> Count(q, Mean), failed |-> Count(q, Fail),
      ep |-> PairsOf(q, Err), ip |-> PairsOf(q, Mean)]
GApply(s, op) ==
  CASE op.k = "geo" -> Ok([s EXCEPT !.geo = IF Len(op.bs) = 0 THEN Without(@, op.n) ELSE PutN(@, [n |-> op.n, bs |-> op.bs, form |-> op.form])])
    [] op.k = "forget" -> Ok([s EXCEPT !.cache = <<>>])
    [] op.k = "reg" -> Added(s, op, <<op.i>>)
    [] op.k = "bolts" -> Added(s, op, Bolts(op, 1))
    [] op.k = "planetary" -> Added(s, op, Planetary(op))
    [] op.k = "unreg" -> Ret([s EXCEPT !.regs[op.r] = Without(@, op.n)], [res |-> "ok", had |-> Has(s.regs[op.r], op.n)])
    [] op.k = "clear" -> Ok([s EXCEPT !.regs[op.r] = <<>>])
    [] op.k = "use" -> Ok([s EXCEPT !.use = op.r])
    [] op.k = "ask" ->
         LET r == s.regs[op.r] P == OfPart(r, op.p) T == SelectSeq(r, LAMBDA i : i.kind = op.kind) IN
         Ret(s, [res |-> "ok", len |-> Len(r), all |-> [i \in 1..Len(r) |-> r[i].n], part |-> [i \in 1..Len(P) |-> P[i].n], has |-> Len(P) > 0,
                 type |-> [i \in 1..Len(T) |-> T[i].n], known |-> Has(r, op.n), parts |-> Cardinality({ r[i].part : i \in 1..Len(r) })])
    [] op.k = "pair" ->
         LET r == s.regs[op.r] m == MeetPairs(r, op.p, op.q) IN
         Ret(s, [res |-> "ok", ok |-> Meant(r, op.p, op.q), rs |-> [i \in 1..Len(m) |-> Compat(m[i][1], m[i][2])], names |-> NamesOf(r, op.p, op.q)])
    [] op.k = "fits" ->
         LET r == s.regs[op.r] IN
         IF ~Has(r, op.n) THEN Ret(s, [res |-> "ok", ns |-> <<>>])
         ELSE LET f == SelectSeq(r, LAMBDA e : e.n # op.n /\ Fits(Get(r, op.n), e)) IN Ret(s, [res |-> "ok", ns |-> [i \in 1..Len(f) |-> f[i].n]])
    [] op.k = "check" ->
         LET t1 == Fetch(s, op.a) t == Fetch(t1, op.b)
             v == Verdict(t, op.a, op.Ta, op.b, op.Tb, op.how)
         IN Ret(t, IF v.hit = "any" THEN [any |-> "any"] ELSE [res |-> "ok", v |-> Judged(v, op.how)])
    [] op.k = "assembly" ->
         LET q == All(FetchAll(s, op.ps, 1), op, 1, 2)
             t == FetchAll(s, SelectSeq(op.ps, LAMBDA p : \E i \in 1..Len(q) : q[i].a = p.n \/ q[i].b = p.n), 1)
         IN IF \E i \in 1..Len(q) : q[i].v.hit = "any" THEN Ret(t, [any |-> "any"]) ELSE Ret(t, [res |-> "ok", vs |-> [i \in 1..Len(q) |-> [a |-> q[i].a, b |-> q[i].b, v |-> Judged(q[i].v, "MESH")]],
                    sum |-> Summary(q)])
    [] op.k = "rod" -> Ret(s, [res |-> "ok", depth |-> op.d])
GGood(s) == \A r \in 1..2 : Cardinality({ s.regs[r][i].n : i \in 1..Len(s.regs[r]) }) = Len(s.regs[r])
=============================================================================
