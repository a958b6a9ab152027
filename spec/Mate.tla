-------------------------------- MODULE Mate --------------------------------
(* Mates between datum features: what a solved placement must satisfy, for    *)
(* the solver, chains of mates, face-to-face mates and frames that follow a   *)
(* datum; coincidence and bolt circle checks; limits and coupled motion.      *)
(* Placements are only determined up to the freedom the mate leaves, so the   *)
(* observations are the features the mate fixes (scaled by 105; directions    *)
(* have integral length).                                                     *)
EXTENDS Asm

NoDat == [n |-> "", ty |-> "none", o |-> Zero3, v |-> Zero3, w |-> Zero3, r |-> 0]
\* src: seq of [n, ds]; solved: seq of [n, m, stale]; fm: face mates; fr: frames
TInit0(i) == [src |-> <<>>, solved |-> <<>>, fm |-> <<>>, fr |-> <<>>, cached |-> i.cached]
HasSD(s, p, d) == Has(s.src, p) /\ Has(Get(s.src, p).ds, d)
SD(s, p, d) == Get(Get(s.src, p).ds, d)
DirOf(x) == IF x.ty \in {"plane", "circle", "axis"} THEN x.v ELSE <<0, 0, 1>>
UD(x) == Unit105(DirOf(x))
Aligned(v) == Dot(v, v) = Abs(v[1]) + Abs(v[2]) + Abs(v[3])
Replace(q, e) == [i \in 1..Len(q) |-> IF q[i].n = e.n THEN e ELSE q[i]]
PutN(q, e) == IF Has(q, e.n) THEN Replace(q, e) ELSE Append(q, e)
Drop(q, n) == SelectSeq(q, LAMBDA e : e.n # n)
Stale(q) == [i \in 1..Len(q) |-> [q[i] EXCEPT !.stale = TRUE]]

(* world features of a point (scaled) and a direction (scaled) under placement P *)
WPt(P, x) == VAdd(MV(P.R, x), VScale(105, P.t))
WDir(P, v) == MV(P.R, v)

Supported == {"coincident", "rigid", "concentric", "revolute", "parallel", "perpendicular", "distance", "angle"}
(* features of the child placed by mate m between datums A and B, parent placed at P *)
Feat(m, A, B, P) ==
  LET u == UD(A) o == VAdd(VScale(105, A.o), VScale(m.off, u)) IN
  CASE m.ty \in {"coincident", "rigid"} -> << WPt(P, o), WDir(P, VNeg(u)) >>
    [] m.ty \in {"concentric", "revolute"} -> << WDir(P, u), Zero3 >>           \* direction; distance of the axes
    [] m.ty = "parallel" -> << WDir(P, u) >>
    [] m.ty = "perpendicular" -> << <<0>> >>                                    \* cosine
    [] m.ty = "distance" -> << <<105 * m.off>> >>                               \* along the parent's normal
    [] m.ty = "angle" -> IF Aligned(DirOf(A)) THEN << WDir(P, u), Col(RotM(DirOf(A), m.ang), 1), Col(RotM(DirOf(A), m.ang), 2) >>
                         ELSE << WDir(P, u) >>

Solvable(s, m) == HasSD(s, m.pa, m.da) /\ HasSD(s, m.pb, m.db) /\ m.ty \in Supported
\* a cached answer may be out of date after datums or the mate itself changed (until the cache is invalidated)
\* (answers are kept per mate name and target axis; a turn to a named axis is observed taken back)
Unsure(s, m, ax) == s.cached /\ \E i \in 1..Len(s.solved) : s.solved[i].n = m.n /\ s.solved[i].ax = ax /\ (s.solved[i].stale \/ s.solved[i].m # m)
Note(s, m, ax) == IF ~s.cached \/ ~Solvable(s, m) \/ (\E i \in 1..Len(s.solved) : s.solved[i].n = m.n /\ s.solved[i].ax = ax) THEN s
                  ELSE [s EXCEPT !.solved = Append(@, [n |-> m.n, ax |-> ax, m |-> m, stale |-> FALSE])]
Answer(s, m, P) == IF ~Solvable(s, m) THEN [ok |-> FALSE, rigid |-> TRUE, f |-> <<>>]
                   ELSE [ok |-> TRUE, rigid |-> TRUE, f |-> Feat(m, SD(s, m.pa, m.da), SD(s, m.pb, m.db), P)]
RECURSIVE NoteAll(_, _)
NoteAll(s, ms) == IF ms = <<>> THEN s ELSE NoteAll(Note(s, Head(ms), "Z"), Tail(ms))
ParentOf(ps, p) == IF Has(ps, p) THEN Get(ps, p).pose ELSE Id
RECURSIVE Prefix(_, _)
Prefix(s, ms) == IF ms = <<>> \/ ~Solvable(s, Head(ms)) THEN <<>> ELSE <<Head(ms)>> \o Prefix(s, Tail(ms))

(* ------------------------------------------------------ face-to-face mates *)
FaceKinds == {"coincident", "concentric", "parallel"}
FDir(ty, x) == UD(x)
FFeat(f, A, B, P) ==
  LET u == UD(A) o == VAdd(VScale(105, A.o), VScale(f.off, u)) IN
  CASE f.ty = "coincident" -> << WPt(P, o), WDir(P, VNeg(u)) >> \o
                               (IF Aligned(DirOf(A)) THEN << Col(RotM(DirOf(A), f.rot), 1), Col(RotM(DirOf(A), f.rot), 2) >> ELSE <<>>)
    [] f.ty = "concentric" -> << WPt(P, o), WDir(P, u) >>
    [] f.ty = "parallel" -> << WPt(P, VAdd(VScale(105, B.o), VScale(f.off, u))), WDir(P, u) >>

(* ------------------------------------------------------------- judgements *)
SamePt(a, b, mm) == LET d == VSub(b.o, a.o) IN 100 * Dot(d, d) <= mm * mm
OnPlane(p, x, mm) == LET k == Dot(x.v, VSub(p, x.o)) IN 100 * k * k <= mm * mm * Dot(x.v, x.v)
OnAxis(p, x, mm) == LET c == Cross(x.v, VSub(p, x.o)) IN 100 * Dot(c, c) <= mm * mm * Dot(x.v, x.v)
Lined(a, b) == Abs(Dot(a.v, b.v)) * 100000 >= Len3(a.v) * Len3(b.v) * CosK(1)
Coincide(a, b, mm) ==
  CASE a.ty = "point" /\ b.ty = "point" -> SamePt(a, b, mm)
    [] a.ty = "circle" /\ b.ty = "circle" -> SamePt(a, b, mm) /\ Lined(a, b)
    [] a.ty = "plane" /\ b.ty = "plane" -> OnPlane(b.o, a, mm) /\ Lined(a, b)
    [] a.ty = "axis" /\ b.ty = "axis" -> OnAxis(b.o, a, mm) /\ Lined(a, b)
    [] a.ty = "point" /\ b.ty = "plane" -> OnPlane(a.o, b, mm)
    [] a.ty = "plane" /\ b.ty = "point" -> OnPlane(b.o, a, mm)
    [] OTHER -> FALSE
Judged(a, b) == <<a.ty, b.ty>> \in { <<"point", "point">>, <<"circle", "circle">>, <<"plane", "plane">>, <<"axis", "axis">>,
                                     <<"point", "plane">>, <<"plane", "point">> }
\* offsets are multiples of half the hole spacing
Bolts(a, b, k, off, mm) ==
  /\ a.ty = "circle" /\ b.ty = "circle" /\ Coincide(a, b, mm)
  /\ 10 * Abs(a.r - b.r) <= mm
  /\ (off * k) % 360 = 0

Free == -9999
Viol(l, pos, vel, eff) ==
  (IF pos # Free /\ l.lo # Free /\ pos < l.lo THEN <<"min_value">> ELSE <<>>)
  \o (IF pos # Free /\ l.hi # Free /\ pos > l.hi THEN <<"max_value">> ELSE <<>>)
  \o (IF vel # Free /\ l.vlo # Free /\ vel < l.vlo THEN <<"min_velocity">> ELSE <<>>)
  \o (IF vel # Free /\ l.vhi # Free /\ Abs(vel) > l.vhi THEN <<"max_velocity">> ELSE <<>>)
  \o (IF eff # Free /\ l.elo # Free /\ eff < l.elo THEN <<"min_effort">> ELSE <<>>)
  \o (IF eff # Free /\ l.ehi # Free /\ Abs(eff) > l.ehi THEN <<"max_effort">> ELSE <<>>)
Excess(l, pos) == IF pos = Free THEN 0
                  ELSE (IF l.lo # Free /\ pos < l.lo THEN l.lo - pos ELSE 0) + (IF l.hi # Free /\ pos > l.hi THEN pos - l.hi ELSE 0)
\* driver: whole turns for a screw with a pitch (mm per turn)
Driven(op) == (IF op.rev THEN -1 ELSE 1) *
              ((IF op.ty = "screw" /\ op.pitch # Free THEN op.x * op.pitch ELSE op.x * op.ratio) + op.off)

AxisVec(a) == CASE a = "X" -> <<1, 0, 0>> [] a = "-X" -> <<-1, 0, 0>> [] a = "Y" -> <<0, 1, 0>> [] a = "-Y" -> <<0, -1, 0>>
                [] a = "-Z" -> <<0, 0, -1>> [] OTHER -> <<0, 0, 1>>
Frame105(x) == CASE x.ty = "frame" -> << VScale(105, x.o), Unit105(x.v), Unit105(x.w), VDiv(Cross(Unit105(x.v), Unit105(x.w)), 105) >>
                 [] x.ty = "point" -> << VScale(105, x.o), <<105, 0, 0>>, <<0, 105, 0>>, <<0, 0, 105>> >>
                 [] x.ty = "none" -> << Zero3, <<105, 0, 0>>, <<0, 105, 0>>, <<0, 0, 105>> >>
                 [] OTHER -> << VScale(105, x.o), Unit105(x.v) >>

TApply(s, op) ==
  CASE op.k = "source" ->            \* register all datums of a part
         Ok([s EXCEPT !.src = PutN(@, [n |-> op.n, ds |-> op.ds]), !.solved = Stale(@), !.fm = Stale(@)])
    [] op.k = "one" ->               \* register one datum of a part
         Ok([s EXCEPT !.src = PutN(@, [n |-> op.n, ds |-> PutN(IF Has(@, op.n) THEN Get(@, op.n).ds ELSE <<>>, op.d)]),
                      !.solved = Stale(@), !.fm = Stale(@)])
    [] op.k = "solve" ->
         IF Unsure(s, op.m, op.ax) THEN Ret(s, [any |-> TRUE])
         ELSE Ret(Note(s, op.m, op.ax), [res |-> "ok", a |-> Answer(s, op.m, op.pose)])
    [] op.k = "all" ->
         IF \E i \in 1..Len(op.ms) : Unsure(s, op.ms[i], "Z") THEN Ret(NoteAll(s, op.ms), [any |-> TRUE])
         ELSE Ret(NoteAll(s, op.ms), [res |-> "ok", a |-> [i \in 1..Len(op.ms) |->
                    [n |-> op.ms[i].n, a |-> Answer(s, op.ms[i], ParentOf(op.ps, op.ms[i].pa))]]])
    [] op.k = "chain" ->             \* each part placed on the part its mate names; features relative to that part
         Ret(s, [res |-> "ok", a |-> LET ms == Prefix(s, op.ms) IN [i \in 1..Len(ms) |->
                    [n |-> ms[i].pb, a |-> Answer(s, ms[i], Id)]]])
    [] op.k = "forget" -> Ok([s EXCEPT !.solved = IF op.n = "" THEN <<>> ELSE Drop(@, op.n)])
    [] op.k = "axis" ->              \* the local Z direction becomes the named axis, in place
         Ret(s, [res |-> "ok", z |-> MV(op.pose.R, AxisVec(op.a)), t |-> op.pose.t, rigid |-> TRUE])
    [] op.k = "check" ->             \* validate_transform of an arbitrary integer matrix
         LET o == MM(Tr(op.R), op.R) = I3 d == Det(op.R) = 1
         IN Ret(s, [res |-> "ok", valid |-> o /\ d /\ op.b = <<0, 0, 0, 1>>, ortho |-> o, rigid |-> o /\ d])
    [] op.k = "fmake" ->
         Ok([s EXCEPT !.fm = PutN(@, [n |-> op.n, f |-> op.f, done |-> FALSE, stale |-> FALSE])])
    [] op.k = "fplace" ->
         LET e == Get(s.fm, op.n) f == e.f IN
         IF e.done /\ e.stale THEN Ret(s, [any |-> TRUE])
         ELSE IF ~HasSD(s, f.pa, f.da) \/ ~HasSD(s, f.pb, f.db) THEN Ret(s, [res |-> "exc:KeyError"])
         ELSE IF f.ty \notin FaceKinds THEN Ret(s, [res |-> "exc:ValueError"])
         ELSE Ret([s EXCEPT !.fm = Replace(@, [e EXCEPT !.done = TRUE, !.stale = FALSE])],
                  [res |-> "ok", rigid |-> TRUE, f |-> FFeat(f, SD(s, f.pa, f.da), SD(s, f.pb, f.db), op.pose)])
    [] op.k = "fcheck" ->            \* a placement computed from the mate satisfies it
         LET e == Get(s.fm, op.n) f == e.f IN
         IF e.done /\ e.stale THEN Ret(s, [any |-> TRUE])
         ELSE LET good == HasSD(s, f.pa, f.da) /\ HasSD(s, f.pb, f.db) /\ f.ty \in FaceKinds
              IN Ret(IF good THEN [s EXCEPT !.fm = Replace(@, [e EXCEPT !.done = TRUE, !.stale = FALSE])] ELSE s,
                     [res |-> "ok", sat |-> good])
    [] op.k = "fforget" -> Ok([s EXCEPT !.fm = Replace(@, [Get(@, op.n) EXCEPT !.done = FALSE, !.stale = FALSE])])
    [] op.k = "frame" ->             \* a frame that follows a datum; keeps what it found until invalidated
         LET e == IF Has(s.fr, op.n) THEN Get(s.fr, op.n) ELSE [n |-> op.n, p |-> op.p, d |-> op.d, got |-> NoDat]
             x == IF e.got.ty # "none" THEN e.got ELSE IF HasSD(s, e.p, e.d) THEN SD(s, e.p, e.d) ELSE NoDat
         IN Ret([s EXCEPT !.fr = PutN(@, [e EXCEPT !.got = x])], [res |-> "ok", rigid |-> TRUE, f |-> Frame105(x)])
    [] op.k = "reframe" -> Ok([s EXCEPT !.fr = IF Has(@, op.n) THEN Replace(@, [Get(@, op.n) EXCEPT !.got = NoDat]) ELSE @])
    [] op.k = "tilt" -> Ret(s, [res |-> "ok", rigid |-> TRUE, holds |-> TRUE])      \* whatever the directions
    [] op.k = "meet" ->
         IF Judged(op.a, op.b) THEN Ret(s, [res |-> "ok", sat |-> Coincide(op.a, op.b, op.mm), sym |-> Coincide(op.b, op.a, op.mm)])
         ELSE Ret(s, [any |-> TRUE])
    [] op.k = "bolt" -> Ret(s, [res |-> "ok", sat |-> Bolts(op.a, op.b, op.holes, op.off, op.mm)])
    [] op.k = "limits" -> Ret(s, [res |-> "ok", viol |-> Viol(op.l, op.pos, op.vel, op.eff), err |-> Excess(op.l, op.pos),
                                  sat |-> Excess(op.l, op.pos) = 0])
    [] op.k = "couple" -> IF op.ty \in {"gear", "rack_pinion", "cam", "screw"} THEN Ret(s, [res |-> "ok", x |-> Driven(op)])
                          ELSE Ret(s, [res |-> "exc:ValueError"])
    [] op.k = "copy" -> Ret(s, [res |-> "ok", same |-> TRUE])
TGood(s) == TRUE
=============================================================================
