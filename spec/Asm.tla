-------------------------------- MODULE Asm --------------------------------
(* Assemblies: parts with datum features placed in the world, mates between   *)
(* datums, design constraints judged in world coordinates, load cases and     *)
(* bolt patterns.  Every refused operation leaves the assembly unchanged.     *)
(* Vectors of datums have integral length, so world directions scaled by 105  *)
(* are integers; poses are exact (Lin).                                       *)
EXTENDS Lin, FiniteSets

Has(q, n) == \E i \in 1..Len(q) : q[i].n = n
Get(q, n) == q[CHOOSE i \in 1..Len(q) : q[i].n = n]
Names(q) == [i \in 1..Len(q) |-> q[i].n]
Sel(q, T(_)) == SelectSeq(q, T)

Len3(v) == Sqrt(Dot(v, v))
Unit105(v) == IF v = Zero3 THEN Zero3 ELSE VDiv(VScale(105, v), Len3(v))

(* ---------------------------------------------------------------- datums *)
\* init: defs |-> seq of [n, ds |-> seq of [n, ty, o, v, w, r]]
\* v: direction / normal / x axis; w: y axis of a frame
AInit(i) == [defs |-> i.defs, parts |-> <<>>, mates |-> <<>>, cons |-> <<>>, lcs |-> <<>>, bps |-> <<>>]

DefOf(s, p) == Get(s.defs, Get(s.parts, p).def)
HasPart(s, p) == Has(s.parts, p)
HasDatum(s, p, d) == HasPart(s, p) /\ Has(DefOf(s, p).ds, d)
DatumOf(s, p, d) == Get(DefOf(s, p).ds, d)
World(s, p, d) == LET x == DatumOf(s, p, d) T == Get(s.parts, p).pose
                  IN [ty |-> x.ty, o |-> Act(T, x.o), v |-> MV(T.R, x.v), w |-> MV(T.R, x.w), r |-> x.r]

(* ----------------------------------------------------------------- mates *)
DirTypes == {"axis", "plane"}
MateOk(t, a, b) ==
  CASE t = "coincident" -> TRUE
    [] t = "concentric" -> a \in {"axis", "circle"} /\ b \in {"axis", "circle"}
    [] t \in {"parallel", "perpendicular"} -> a \in DirTypes /\ b \in DirTypes
    [] t = "tangent" -> a \in {"plane", "circle"} \/ b \in {"plane", "circle"}
    [] OTHER -> TRUE
Remaining == [rigid |-> 0, revolute |-> 1, prismatic |-> 1, cylindrical |-> 2, spherical |-> 3, planar |-> 3,
              pin_slot |-> 2, universal |-> 2, screw |-> 1, coincident |-> 3, concentric |-> 2, parallel |-> 4,
              perpendicular |-> 5, tangent |-> 5, distance |-> 5, angle |-> 5, slot |-> 4,
              gear |-> 6, rack_pinion |-> 6, cam |-> 6]      \* coupled mates remove nothing
RECURSIVE SumRemoved(_, _, _)
SumRemoved(ms, p, i) == IF i = 0 THEN 0
                        ELSE SumRemoved(ms, p, i - 1) + (IF ms[i].p2 = p THEN 6 - Remaining[ms[i].ty] ELSE 0)
Dof(s, p) == Max(0, 6 - SumRemoved(s.mates, p, Len(s.mates)))

(* ----------------------------------------------------------- constraints *)
\* tolerances in degrees with rational approximations of cos, sin, cos^2, sin^2
CosK(t) == CASE t = 1 -> 99985 [] t = 35 -> 81915 [] t = 50 -> 64279 [] t = 60 -> 50000 [] t = 100 -> -17365
SinK(t) == CASE t = 1 -> 1745 [] t = 35 -> 57358 [] t = 50 -> 76604 [] t = 60 -> 86603 [] t = 100 -> 100001
Sin2(t) == CASE t = 1 -> <<1, 3283>> [] t = 35 -> <<329, 1000>> [] t = 50 -> <<587, 1000>> [] t = 60 -> <<3, 4>> [] t = 100 -> <<2, 1>>
Cos2(t) == CASE t = 1 -> <<3282, 3283>> [] t = 35 -> <<671, 1000>> [] t = 50 -> <<413, 1000>> [] t = 60 -> <<1, 4>>
             [] t = 100 -> <<30, 1000>>
Axis(d) == CASE d = "+x" -> <<1, 0, 0>> [] d = "-x" -> <<-1, 0, 0>> [] d = "+y" -> <<0, 1, 0>> [] d = "-y" -> <<0, -1, 0>>
             [] d = "+z" -> <<0, 0, 1>> [] d = "-z" -> <<0, 0, -1>> [] OTHER -> Zero3
NormalOf(x) == IF x.ty \in {"plane", "circle"} THEN x.v ELSE Zero3        \* zero: none
DirectionOf(x) == IF x.ty = "axis" THEN x.v ELSE Zero3
EitherOf(x) == IF x.ty \in {"plane", "circle", "axis"} THEN x.v ELSE Zero3
Flat(v) == <<v[1], v[2], 0>>

Facing(c, x) == LET n == NormalOf(x) t == Axis(c.dir)
  IN n # Zero3 /\ t # Zero3 /\ Dot(n, t) * 100000 >= Len3(n) * CosK(c.tol)
ParallelC(c, x) == LET n == EitherOf(x)
  IN c.axis # Zero3 /\ n # Zero3 /\ Abs(Dot(n, c.axis)) * 100000 >= Len3(n) * Len3(c.axis) * CosK(c.tol)
PerpC(c, x) == LET n == EitherOf(x)
  IN c.axis # Zero3 /\ n # Zero3 /\ Abs(Dot(n, c.axis)) * 100000 <= Len3(n) * Len3(c.axis) * SinK(c.tol)
AtRadius(c, x) == LET r == Flat(VSub(x.o, c.ctr)) q == Dot(r, r)
  IN c.hasctr /\ c.hasrad
     /\ (10 * c.rad - c.mm <= 0 \/ (10 * c.rad - c.mm) * (10 * c.rad - c.mm) <= 100 * q)
     /\ 100 * q <= (10 * c.rad + c.mm) * (10 * c.rad + c.mm)
Tangent(c, x) == LET r == Flat(VSub(x.o, c.ctr)) d == Flat(EitherOf(x)) rd == Dot(r, d)
  IN /\ c.hasctr /\ c.hasrad /\ r # Zero3 /\ EitherOf(x) # Zero3
     /\ (d = Zero3 \/ rd * rd * Sin2(c.tol)[2] <= Sin2(c.tol)[1] * Dot(r, r) * Dot(d, d))
Radial(c, x) == LET r == Flat(VSub(x.o, c.ctr)) d == EitherOf(x)
                    rd == IF c.dir = "inward" THEN -Dot(r, d) ELSE Dot(r, d)
                    big == rd * rd * Cos2(c.tol)[2] > Cos2(c.tol)[1] * Dot(r, r) * Dot(d, d)
  IN /\ c.hasctr /\ c.dir \in {"inward", "outward"} /\ r # Zero3 /\ d # Zero3
     /\ IF c.tol <= 90 THEN rd > 0 /\ big ELSE rd >= 0 \/ ~big
Custom(c, x) == CASE c.val = "above" -> x.o[3] > 0 [] c.val = "far" -> x.o[1] * x.o[1] > 25 [] OTHER -> FALSE  \* none, raising
Passed(c, x) ==
  CASE c.ty = "facing" -> Facing(c, x)
    [] c.ty = "parallel_to" -> ParallelC(c, x)
    [] c.ty = "perpendicular_to" -> PerpC(c, x)
    [] c.ty = "at_radius" -> AtRadius(c, x)
    [] c.ty = "tangent_to_circle" -> Tangent(c, x)
    [] c.ty = "radial_from_center" -> Radial(c, x)
    [] c.ty = "custom" -> Custom(c, x)
    [] OTHER -> FALSE                              \* kinds that cannot be evaluated never pass
Holds(s, c) == Passed(c, World(s, c.part, c.datum))
Failed(s) == SelectSeq(s.cons, LAMBDA c : c.sev = "error" /\ ~Holds(s, c))
Warned(s) == SelectSeq(s.cons, LAMBDA c : c.sev = "warning" /\ ~Holds(s, c))
Verdict(s) == [valid |-> Failed(s) = <<>>,
               each |-> [i \in 1..Len(s.cons) |-> [n |-> s.cons[i].n, p |-> Holds(s, s.cons[i])]],
               failed |-> Names(Failed(s)), warned |-> Names(Warned(s))]

(* ----------------------------------------------------------- transitions *)
Ret(s, o) == [st |-> s, obs |-> o]
Err(s) == Ret(s, [res |-> "AssemblyError"])
Ok(s) == Ret(s, [res |-> "ok"])
Bare(q) == [i \in 1..Len(q) |-> [n |-> q[i].n, ty |-> q[i].ty]]

AApply(s, op) ==
  CASE op.k = "part" ->
         IF HasPart(s, op.n) THEN Err(s)
         ELSE Ok([s EXCEPT !.parts = Append(@, [n |-> op.n, def |-> op.def, pose |-> op.pose])])
    [] op.k = "move" ->
         Ok([s EXCEPT !.parts = [i \in 1..Len(@) |-> IF @[i].n = op.n THEN [@[i] EXCEPT !.pose = op.pose] ELSE @[i]]])
    [] op.k = "mate" ->
         IF HasDatum(s, op.p1, op.d1) /\ HasDatum(s, op.p2, op.d2)
            /\ MateOk(op.ty, DatumOf(s, op.p1, op.d1).ty, DatumOf(s, op.p2, op.d2).ty)
         THEN Ok([s EXCEPT !.mates = Append(@, [n |-> op.n, ty |-> op.ty, p1 |-> op.p1, p2 |-> op.p2])])
         ELSE Err(s)
    [] op.k = "con" ->
         IF HasDatum(s, op.c.part, op.c.datum) THEN Ok([s EXCEPT !.cons = Append(@, op.c)]) ELSE Err(s)
    [] op.k = "datum" ->
         IF ~HasDatum(s, op.p, op.d) THEN Err(s)
         ELSE LET x == World(s, op.p, op.d)
              IN Ret(s, [res |-> "ok", ty |-> x.ty, o |-> x.o, v |-> Unit105(x.v), w |-> Unit105(x.w), r |-> x.r])
    [] op.k = "validate" -> Ret(s, [res |-> "ok", v |-> Verdict(s)])
    [] op.k = "demand" ->            \* validate_and_raise: names every failed constraint
         IF Failed(s) = <<>> THEN Ok(s) ELSE Ret(s, [res |-> "AssemblyError", failed |-> Names(Failed(s))])
    [] op.k = "report" ->
         Ret(s, [res |-> "ok",
                 parts |-> [i \in 1..Len(s.parts) |-> [n |-> s.parts[i].n, ty |-> s.parts[i].def]],
                 mates |-> Bare(s.mates), cons |-> Bare(s.cons),
                 status |-> IF Failed(s) = <<>> THEN "VALID" ELSE "INVALID",
                 failed |-> Names(Failed(s)), warned |-> Names(Warned(s))])
    [] op.k = "dof" -> Ret(s, [res |-> "ok", dof |-> [i \in 1..Len(s.parts) |-> [n |-> s.parts[i].n, d |-> Dof(s, s.parts[i].n)]]])
    [] op.k = "load" ->
         IF (op.part # "_assembly" /\ ~HasPart(s, op.part)) \/ Has(s.lcs, op.id) THEN Err(s)
         ELSE Ok([s EXCEPT !.lcs = Append(@, [n |-> op.id, part |-> op.part])])
    [] op.k = "bolts" ->
         IF ~HasPart(s, op.a) \/ ~HasPart(s, op.b) \/ (\E i \in 1..Len(s.bps) : s.bps[i].a = op.a /\ s.bps[i].b = op.b)
         THEN Err(s) ELSE Ok([s EXCEPT !.bps = Append(@, [a |-> op.a, b |-> op.b, nb |-> op.nb])])
    [] op.k = "getbolts" ->
         LET q == SelectSeq(s.bps, LAMBDA x : x.a = op.a /\ x.b = op.b)
         IN Ret(s, [res |-> "ok", nb |-> IF q = <<>> THEN 0 ELSE q[1].nb])
    [] op.k = "import" ->
         \* file entries [n, form, pose]; entries of unknown parts are ignored
         IF op.file # "ok" \/ (\E i \in 1..Len(op.es) : HasPart(s, op.es[i].n) /\ op.es[i].form \in {"missing", "dict", "short"})
         THEN Err(s)
         ELSE Ok([s EXCEPT !.parts = [i \in 1..Len(@) |->
                   IF Has(op.es, s.parts[i].n) THEN [s.parts[i] EXCEPT !.pose = Get(op.es, s.parts[i].n).pose] ELSE s.parts[i]]])

AGood(s) ==
  /\ Cardinality({ s.parts[i].n : i \in 1..Len(s.parts) }) = Len(s.parts)
  /\ \A i \in 1..Len(s.parts) : Proper(s.parts[i].pose)
  /\ \A i \in 1..Len(s.mates) : HasPart(s, s.mates[i].p1) /\ HasPart(s, s.mates[i].p2)
  /\ \A i \in 1..Len(s.cons) : HasDatum(s, s.cons[i].part, s.cons[i].datum)
=============================================================================
