------------------------------- MODULE Kint -------------------------------
(* Constraints of an assembly checked against where its parts are.          *)
(* The world is a list of named rigid placements (of parts and of named      *)
(* frames of parts); validators hold lists of constraints; a constraint says  *)
(* whether the world satisfies it and how far off it is, from the world of     *)
(* that moment only.  Lengths of tolerances are in tenths, squared errors are   *)
(* exact integers, angles are judged by the exact square of their cosine.       *)
EXTENDS Lin

None == <<>>
KInit(ini) == [ws |-> <<>>, vs |-> <<<<>>, <<>>>>]
KGood(s) == /\ \A i, j \in 1..Len(s.ws) : i # j => s.ws[i].n # s.ws[j].n
            /\ \A i \in 1..Len(s.ws) : Proper(s.ws[i].p)

Has(ws, n) == \E i \in 1..Len(ws) : ws[i].n = n
At(ws, n) == ws[CHOOSE i \in 1..Len(ws) : ws[i].n = n].p
Without(ws, n) == SelectSeq(ws, LAMBDA w : w.n # n)

(* --- axes --- *)
AxisOf(s) == CASE s \in {"x", "X"} -> <<1, 0, 0>> [] s \in {"y", "Y"} -> <<0, 1, 0>> [] s \in {"z", "Z"} -> <<0, 0, 1>>
               [] s = "-x" -> <<-1, 0, 0>> [] s = "-y" -> <<0, -1, 0>> [] s \in {"-z", "-Z"} -> <<0, 0, -1>> [] OTHER -> Zero3
\* the axis a constraint names: by letter, as a vector, or the default of its kind
Axis(c, x) == IF x.v # None THEN x.v
              ELSE IF x.s = "" THEN (IF c.how = "help" /\ c.k = "tangent" THEN <<0, 1, 0>> ELSE <<0, 0, 1>>)
              ELSE AxisOf(x.s)

(* --- tolerances --- *)
TolMm(c) == IF c.tm >= 0 THEN c.tm ELSE IF c.how = "help" /\ c.k = "at_distance" THEN 5 ELSE 1
TolDeg(c) == IF c.td >= 0 THEN c.td ELSE IF c.how = "help" /\ c.k = "tangent" THEN 2 ELSE 1
\* squares of cosines in hundred-thousandths
Cos2(t) == CASE t = 1 -> 99970 [] t = 2 -> 99878 [] t = 20 -> 88302 [] t = 31 -> 73474 [] t = 46 -> 48255
             [] t = 61 -> 23504 [] t = 85 -> 760
\* twice the side of the tolerance cone on which the square of the cosine lies: within a ten-thousandth of the rim nothing is said
Rim(a, b, lim) == LET d == Dot(a, b) * Dot(a, b) * 100000 - lim * (Dot(a, a) * Dot(b, b)) IN
                  IF Abs(d) < 10 * (Dot(a, a) * Dot(b, b)) THEN "rim" ELSE IF d > 0 THEN "more" ELSE "less"
\* the angle between lines of directions a, b is at most t degrees; differs from a right angle by at most t degrees
Aligned(a, b, t) == Rim(a, b, Cos2(t)) = "more"
Square(a, b, t) == Rim(a, b, 100000 - Cos2(t)) = "less"
OpenA(a, b, t) == Rim(a, b, Cos2(t)) = "rim"
OpenS(a, b, t) == Rim(a, b, 100000 - Cos2(t)) = "rim"
Within(d2, t) == d2 * 100 <= t * t

(* --- faces --- *)
Up(f) == CASE f \in {"top", "Top", "TOP"} -> "TOP" [] f \in {"bottom", "BOTTOM"} -> "BOTTOM" [] f \in {"front", "FRONT"} -> "FRONT"
           [] f \in {"back", "BACK"} -> "BACK" [] f \in {"left", "LEFT"} -> "LEFT" [] f \in {"right", "RIGHT"} -> "RIGHT" [] OTHER -> ""
Mid(b, i) == (b[1][i] + b[2][i]) \div 2
FaceAt(f, b) == CASE f = "TOP" -> <<Mid(b, 1), Mid(b, 2), b[2][3]>> [] f = "BOTTOM" -> <<Mid(b, 1), Mid(b, 2), b[1][3]>>
                  [] f = "FRONT" -> <<Mid(b, 1), b[2][2], Mid(b, 3)>> [] f = "BACK" -> <<Mid(b, 1), b[1][2], Mid(b, 3)>>
                  [] f = "RIGHT" -> <<b[2][1], Mid(b, 2), Mid(b, 3)>> [] f = "LEFT" -> <<b[1][1], Mid(b, 2), Mid(b, 3)>>
\* where a part is taken to be: its origin, a face of its box, or a named frame; None when there is no such place
Spot(ws, part, f, b) ==
  IF f = "" THEN <<At(ws, part).t>>
  ELSE IF b # None /\ Up(f) # "" THEN <<Act(At(ws, part), FaceAt(Up(f), b))>>
  ELSE IF Has(ws, part \o "." \o f) THEN <<At(ws, part \o "." \o f).t>>
  ELSE IF Has(ws, f) THEN <<At(ws, f).t>> ELSE None

(* --- boxes --- *)
Lo3(S) == CHOOSE x \in S : \A y \in S : x <= y
Hi3(S) == CHOOSE x \in S : \A y \in S : x >= y
Corners(b) == { <<b[i][1], b[j][2], b[k][3]>> : i, j, k \in 1..2 }
Placed(p, b) == LET C == { Act(p, q) : q \in Corners(b) } IN
  <<<<Lo3({q[1] : q \in C}), Lo3({q[2] : q \in C}), Lo3({q[3] : q \in C})>>, <<Hi3({q[1] : q \in C}), Hi3({q[2] : q \in C}), Hi3({q[3] : q \in C})>>>>
Gap(A, B, i) == Max(A[1][i] - B[2][i], B[1][i] - A[2][i])
Gaps(A, B) == <<Gap(A, B, 1), Gap(A, B, 2), Gap(A, B, 3)>>
Apart(g) == g[1] > 0 \/ g[2] > 0 \/ g[3] > 0
Overlap(g) == g[1] < 0 /\ g[2] < 0 /\ g[3] < 0
Pos2(x) == IF x > 0 THEN x * x ELSE 0
\* square of the distance of separate boxes; minus the square of the least way to part overlapping ones
Clear2(g) == IF Apart(g) THEN Pos2(g[1]) + Pos2(g[2]) + Pos2(g[3]) ELSE LET m == Max(g[1], Max(g[2], g[3])) IN -(m * m)

No == [sat |-> FALSE, e |-> <<>>, open |-> FALSE]
Yes(b, e) == [sat |-> b, e |-> e, open |-> FALSE]
May(o, b, e) == [sat |-> b, e |-> e, open |-> o]

\* the other place and direction: of the second part, or of the reference
Other(ws, c) == IF c.b # "" THEN Spot(ws, c.b, c.fb, c.bb) ELSE IF c.rc # None THEN <<c.rc>> ELSE None
OtherOrigin(ws, c) == IF c.b # "" THEN <<At(ws, c.b).t>> ELSE IF c.rc # None THEN <<c.rc>> ELSE None
OtherAxis(ws, c, r) == IF c.b # "" THEN MV(At(ws, c.b).R, Axis(c, c.xb)) ELSE IF r # None THEN r ELSE Zero3
Required(c) == IF c.rr # None THEN c.rr ELSE IF c.how = "help" \/ c.k = "z_stack" THEN <<0>> ELSE None

Coincident(ws, c) == LET p == Spot(ws, c.a, c.fa, c.ba) q == Other(ws, c) IN
  IF p = None \/ q = None THEN No
  ELSE LET d == VSub(q[1], p[1]) IN Yes(Within(Dot(d, d), TolMm(c)), <<Dot(d, d)>> \o d)
AtDistance(ws, c) == LET p == Spot(ws, c.a, c.fa, c.ba) q == Other(ws, c) r == Required(c) t == TolMm(c) IN
  IF p = None \/ q = None \/ r = None THEN No
  ELSE LET d == VSub(q[1], p[1]) D == Dot(d, d) * 100 IN
       Yes(D <= (10 * r[1] + t) * (10 * r[1] + t) /\ (10 * r[1] <= t \/ D >= (10 * r[1] - t) * (10 * r[1] - t)), <<Dot(d, d)>>)
Concentric(ws, c) == LET u == MV(At(ws, c.a).R, Axis(c, c.xa)) o == OtherOrigin(ws, c) w == OtherAxis(ws, c, IF c.rc = None THEN None ELSE c.rx) IN
  IF u = Zero3 \/ w = Zero3 \/ o = None THEN No
  ELSE LET v == VSub(o[1], At(ws, c.a).t) P == Dot(v, v) * Dot(u, u) - Dot(v, u) * Dot(v, u) IN
       May(OpenA(u, w, TolDeg(c)), Aligned(u, w, TolDeg(c)) /\ P * 100 <= TolMm(c) * TolMm(c) * Dot(u, u), <<Dot(u, w) * Dot(u, w), P>>)
Parallel(ws, c) == LET u == MV(At(ws, c.a).R, Axis(c, c.xa)) w == OtherAxis(ws, c, c.rx) IN
  IF u = Zero3 \/ w = Zero3 THEN No ELSE May(OpenA(u, w, TolDeg(c)), Aligned(u, w, TolDeg(c)), <<Dot(u, w) * Dot(u, w)>>)
Perpendicular(ws, c) == LET u == MV(At(ws, c.a).R, Axis(c, c.xa)) w == OtherAxis(ws, c, c.rx) IN
  IF u = Zero3 \/ w = Zero3 THEN No ELSE May(OpenS(u, w, TolDeg(c)), Square(u, w, TolDeg(c)), <<Dot(u, w) * Dot(u, w)>>)
Flat(v) == <<v[1], v[2], 0>>
Tangent(ws, c) == LET u == MV(At(ws, c.a).R, Axis(c, c.xa)) IN
  IF c.rc = None \/ u = Zero3 THEN No
  ELSE LET r == Flat(VSub(At(ws, c.a).t, c.rc)) f == Flat(u) IN
       IF r = Zero3 THEN No ELSE IF f = Zero3 THEN Yes(TRUE, <<0>>)
       ELSE May(OpenS(r, f, TolDeg(c)), Square(r, f, TolDeg(c)), <<Dot(r, f) * Dot(r, f)>>)
Bolts(ws, c) == LET u == MV(At(ws, c.a).R, Axis(c, c.xa)) o == OtherOrigin(ws, c) w == OtherAxis(ws, c, IF c.rc = None THEN None ELSE c.rn) IN
  IF c.pc < 2 \/ c.pr <= 0 \/ u = Zero3 \/ w = Zero3 \/ o = None THEN No
  ELSE LET v == VSub(o[1], At(ws, c.a).t) IN
       May(OpenA(u, w, TolDeg(c)), Aligned(u, w, TolDeg(c)) /\ Within(Dot(v, v), TolMm(c)), <<Dot(u, w) * Dot(u, w), Dot(v, v)>>)
MinDistance(ws, c) == LET p == Spot(ws, c.a, c.fa, c.ba) q == Other(ws, c) IN
  IF c.b # "" /\ c.ba # None /\ c.bb # None /\ (p = None \/ q = None) THEN [sat |-> FALSE, e |-> <<>>, open |-> TRUE]   \* the boxes are there, the named faces are not
  ELSE IF p = None \/ q = None \/ c.rr = None THEN No
  ELSE LET d == VSub(q[1], p[1])
           g == IF c.b # "" /\ c.ba # None /\ c.bb # None THEN Clear2(Gaps(Placed(At(ws, c.a), c.ba), Placed(At(ws, c.b), c.bb))) ELSE Dot(d, d)
           r == c.rr[1]
       IN Yes(IF g >= 0 THEN r <= 0 \/ g >= r * r ELSE r < 0 /\ -g <= r * r, <<g>>)
ZStack(ws, c) == LET r == Required(c) IN
  IF c.b = "" \/ c.ba = None \/ c.bb = None THEN No
  ELSE LET A == Placed(At(ws, c.a), c.ba) B == Placed(At(ws, c.b), c.bb) g == Gap(A, B, 3) IN
       IF g < 0 THEN Yes(FALSE, <<Min(A[2][3], B[2][3]) - Max(A[1][3], B[1][3])>>) ELSE Yes(g >= r[1], <<-g, Max(0, r[1] - g)>>)
NoOverlap(ws, c) ==
  IF c.b = "" THEN No
  ELSE IF c.ba = None \/ c.bb = None THEN Yes(TRUE, <<0>>)
  ELSE LET g == Gaps(Placed(At(ws, c.a), c.ba), Placed(At(ws, c.b), c.bb)) IN
       IF Apart(g) THEN Yes(TRUE, <<0>>)
       ELSE IF Overlap(g) THEN Yes(FALSE, IF c.mesh THEN <<>> ELSE <<-Max(g[1], Max(g[2], g[3]))>>)
       ELSE [sat |-> FALSE, e |-> <<>>, open |-> TRUE]            \* touching: not said
Custom(ws, c) == CASE c.val = "count" -> Yes(Len(ws) >= c.pc, <<Len(ws)>>) [] OTHER -> No

Judge(ws, c) ==
  IF ~Has(ws, c.a) \/ (c.b # "" /\ ~Has(ws, c.b)) THEN No
  ELSE CASE c.k = "coincident" -> Coincident(ws, c) [] c.k = "at_distance" -> AtDistance(ws, c) [] c.k = "concentric" -> Concentric(ws, c)
         [] c.k = "parallel" -> Parallel(ws, c) [] c.k = "perpendicular" -> Perpendicular(ws, c) [] c.k = "tangent" -> Tangent(ws, c)
         [] c.k = "bolts" -> Bolts(ws, c) [] c.k = "min_distance" -> MinDistance(ws, c) [] c.k = "z_stack" -> ZStack(ws, c)
         [] c.k = "no_overlap" -> NoOverlap(ws, c) [] c.k = "custom" -> Custom(ws, c)

(* --- reports --- *)
Sev(c) == IF c.how = "help" THEN "error" ELSE c.sev
Report(ws, cs) ==
  LET J == [i \in 1..Len(cs) |-> Judge(ws, cs[i]).sat]
      bad(s) == SelectSeq([i \in 1..Len(cs) |-> IF J[i] \/ Sev(cs[i]) # s THEN "" ELSE cs[i].n], LAMBDA n : n # "")
      good == SelectSeq([i \in 1..Len(cs) |-> IF J[i] THEN cs[i].n ELSE ""], LAMBDA n : n # "")
  IN [valid |-> bad("error") = <<>>, counts |-> <<Len(cs), Len(good), Len(bad("error")), Len(bad("warning"))>>,
      failed |-> bad("error"), warned |-> bad("warning"), told |-> bad("info"), good |-> good,
      each |-> [i \in 1..Len(cs) |-> [n |-> cs[i].n, sat |-> J[i]]], kept |-> TRUE]
Open(ws, cs) == \E i \in 1..Len(cs) : Judge(ws, cs[i]).open

Ok == [res |-> "ok"]
KApply(s, op) ==
  CASE op.k = "place" -> [st |-> [s EXCEPT !.ws = Without(@, op.n) \o <<[n |-> op.n, p |-> op.p]>>], obs |-> Ok]
    [] op.k = "drop" -> [st |-> [s EXCEPT !.ws = Without(@, op.n)], obs |-> Ok]
    [] op.k = "add" -> [st |-> [s EXCEPT !.vs[op.v] = @ \o op.cs], obs |-> Ok]
    [] op.k = "clear" -> [st |-> [s EXCEPT !.vs[op.v] = <<>>], obs |-> Ok]
    [] op.k = "ask" -> LET j == Judge(s.ws, s.vs[op.v][op.i]) IN
         [st |-> s, obs |-> IF j.open THEN [any |-> TRUE] ELSE [res |-> "ok", sat |-> j.sat, e |-> j.e, kept |-> TRUE]]
    [] op.k = "check" -> [st |-> s, obs |-> IF Open(s.ws, s.vs[op.v]) THEN [any |-> TRUE] ELSE [res |-> "ok", r |-> Report(s.ws, s.vs[op.v])]]
    [] op.k = "raise" -> [st |-> s, obs |-> IF Open(s.ws, s.vs[op.v]) THEN [any |-> TRUE] ELSE
                                         [res |-> IF Report(s.ws, s.vs[op.v]).valid THEN "ok" ELSE "ValueError"]]
    [] op.k = "once" -> [st |-> s, obs |-> IF Open(s.ws, op.cs) THEN [any |-> TRUE] ELSE [res |-> "ok", r |-> Report(s.ws, op.cs)]]
=============================================================================
