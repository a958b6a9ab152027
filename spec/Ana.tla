------------------------------- MODULE Ana -------------------------------
(* Validation of packages: recording analysis runs in the manifest, judging   *)
(* measured metrics of box assemblies against acceptance criteria, and the    *)
(* schema verdicts on plans and results.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
ABase(i) == [plans |-> <<>>, results |-> <<>>, sums |-> <<>>]
AInit(i) == ABase(i)

(* ------------------------------------------------------------ recording *)
Find(s, f, v) == { i \in 1..Len(s) : s[i][f] = v }
PlanEntry(p) == [id |-> p.id, path |-> p.path, kind |-> p.kind, backend |-> p.backend, mode |-> p.mode]
Registered(b) == b \in {"fake", "FAKE", "Fake"}
\* what the run produced
Outcome(p, r, arg) ==
  IF Registered(p.backend)
  THEN [plan |-> p.id, status |-> r.status, backend |-> IF r.backend = "" THEN p.backend ELSE r.backend,
        metrics |-> r.metrics, arts |-> r.arts, notes |-> r.notes, path |-> r.path, mark |-> r.mark, time |-> TRUE]
  ELSE [plan |-> p.id, status |-> arg, backend |-> p.backend, metrics |-> <<>>, arts |-> <<>>, notes |-> "",
        path |-> "summary.json", mark |-> "", time |-> TRUE]
Replace(s, i, e) == [j \in 1..Len(s) |-> IF j = i THEN e ELSE s[j]]
Record(s, p, o) ==
  LET ps == IF Find(s.plans, "id", p.id) = {} THEN Append(s.plans, PlanEntry(p)) ELSE s.plans
      k == Find(s.results, "plan", p.id)
      rs == IF k = {} THEN Append(s.results, o) ELSE Replace(s.results, CHOOSE i \in k : TRUE, o)
  IN [s EXCEPT !.plans = ps, !.results = rs]
\* the summary document of a run, valid against the result schema
Summary(o, p) == [plan_id |-> o.plan, status |-> o.status, backend |-> o.backend, mark |-> o.mark, mode |-> p.mode,
                  time |-> TRUE, valid |-> o.status \in {"passed", "failed", "error", "skipped", "pending"}]
Man(s) == [plans |-> s.plans, results |-> s.results]
Analyze(s, op) ==
  IF op.bad # "" THEN [st |-> s, obs |-> [res |-> "exc", man |-> Man(s), rest |-> TRUE, outside |-> TRUE]]
  ELSE IF Registered(op.p.backend) /\ op.r.raise
  THEN [st |-> s, obs |-> [res |-> "exc", man |-> Man(s), rest |-> TRUE, outside |-> TRUE]]
  ELSE LET o == Outcome(op.p, op.r, op.arg)
           t == Record(s, op.p, o)
       IN [st |-> t, obs |-> [res |-> "ok", man |-> Man(t), rest |-> TRUE, outside |-> TRUE, sum |-> Summary(o, op.p)]]

(* ------------------------------------------------- metrics of box assemblies *)
\* a box: [x,y,z,w,d,h]
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumS(Tail(s))
SumF(s, F(_)) == SumS([i \in 1..Len(s) |-> F(s[i])])
Vol(b) == b.w * b.d * b.h
Area(b) == 2 * (b.w * b.d + b.d * b.h + b.w * b.h)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Lo(bs, f) == MinOf({ bs[i][f] : i \in 1..Len(bs) })
Hi(bs, f, e) == MaxOf({ bs[i][f] + bs[i][e] : i \in 1..Len(bs) })
\* numerator of the centroid over 2V
Mom(bs, f, e) == SumF(bs, LAMBDA b : Vol(b) * (2 * b[f] + b[e]))
M(k, v) == [k |-> k, v |-> v]
Metrics(bs, c, rho) ==
  LET V == SumF(bs, Vol) IN
  CASE c = "volume" -> <<M("volume", V), M("volume_mm3", V), M("part_count", Len(bs))>>
    [] c = "area" -> <<M("area", SumF(bs, Area)), M("area_mm2", SumF(bs, Area)), M("part_count", Len(bs))>>
    [] c = "bbox" -> LET w == Hi(bs, "x", "w") - Lo(bs, "x")
                         d == Hi(bs, "y", "d") - Lo(bs, "y")
                         h == Hi(bs, "z", "h") - Lo(bs, "z")
                     IN <<M("bbox.xmin", Lo(bs, "x")), M("bbox.xmax", Hi(bs, "x", "w")),
                          M("bbox.ymin", Lo(bs, "y")), M("bbox.ymax", Hi(bs, "y", "d")),
                          M("bbox.zmin", Lo(bs, "z")), M("bbox.zmax", Hi(bs, "z", "h")),
                          M("bbox.width", w), M("bbox.depth", d), M("bbox.height", h),
                          M("bbox.x_mm", w), M("bbox.y_mm", d), M("bbox.z_mm", h), M("part_count", Len(bs))>>
    \* density rho * 250000000 kg/m3, so mass in quarter kg
    [] c = "mass" -> <<M("volume_mm3", V), M("mass_kg", V * rho), M("part_count", Len(bs))>>
    \* centroids in 1/(2V)
    [] c = "centroid" -> <<M("centroid.x", Mom(bs, "x", "w")), M("centroid.y", Mom(bs, "y", "d")),
                           M("centroid.z", Mom(bs, "z", "h")), M("part_count", Len(bs))>>
    [] OTHER -> <<>>
\* criteria may spell a metric with dots for underscores or the reverse
Spell(k) == CASE k = "bbox_width" -> "bbox.width" [] k = "bbox_height" -> "bbox.height" [] k = "volume.mm3" -> "volume_mm3"
              [] k = "mass.kg" -> "mass_kg" [] k = "part.count" -> "part_count" [] k = "centroid_x" -> "centroid.x"
              [] k = "area.mm2" -> "area_mm2" [] OTHER -> k
Have(ms, k) == { i \in 1..Len(ms) : ms[i].k = Spell(k) }
Abs(x) == IF x < 0 THEN -x ELSE x
\* limits, tolerances: quarters; scale: how many units of the metric make 1
Holds(v, c, sc) ==
  LET a == 4 * v
      l == c.lim * sc
      t == c.tol * sc
  IN CASE c.cmp \in {"<=", ""} -> a <= l [] c.cmp = "<" -> a < l [] c.cmp = ">=" -> a >= l [] c.cmp = ">" -> a > l
       [] c.cmp \in {"==", "~="} -> Abs(a - l) <= t
       [] OTHER -> FALSE
\* "yes" / "no" / "unknown" (no such metric)
Met(ms, c, sc) == IF ~c.has THEN "free"
                  ELSE IF Have(ms, c.k) = {} THEN "unknown"
                  ELSE IF Holds(ms[CHOOSE i \in Have(ms, c.k) : TRUE].v, c, sc) THEN "yes" ELSE "no"
Scale(op, k) == IF op.check = "centroid" /\ Spell(k) # "part_count" THEN 2 * SumF(op.boxes, Vol)
                ELSE IF Spell(k) = "mass_kg" THEN 4 ELSE 1
Accept(s, op) ==
  LET ms == IF op.boxes = <<>> THEN <<>> ELSE Metrics(op.boxes, op.check, op.rho)
      v == [i \in 1..Len(op.crit) |-> Met(ms, op.crit[i], Scale(op, op.crit[i].k))]
      bad == { i \in 1..Len(op.crit) : v[i] \in {"no", "unknown"} }
  IN [st |-> s, obs |->
       IF ms = <<>> \/ op.boxes = <<>> THEN [res |-> "error", passed |-> FALSE]
       ELSE [res |-> IF bad = {} THEN "passed" ELSE "notpassed", passed |-> bad = {},
             metrics |-> ms,
             each |-> [i \in 1..Len(op.crit) |-> IF v[i] = "yes" THEN "yes" ELSE IF v[i] = "no" THEN "no" ELSE "none"],
             failed |-> [i \in 1..Len(op.crit) |-> i \in bad]]]

(* ----------------------------------------------------- schema verdicts *)
Kinds == {"geometric", "measurement", "structural", "thermal", "cfd", "multiphysics", "assembly"}
Checks(k) == CASE k = "geometric" -> {"volume", "area", "bbox", "centroid", "distance", "clearance"}
               [] k = "measurement" -> {"dimension", "mass", "centroid", "moment"}
               [] k = "assembly" -> {"interference", "fit", "alignment", "clearance"}
               [] OTHER -> {}
LoadTypes == {"pressure", "force", "moment", "gravity", "thermal", "displacement"}
BcTypes == {"fixed", "pinned", "roller", "spring", "symmetry", "thermal"}
Cmps == {"<=", ">=", "<", ">", "==", "~="}
Fields(k) ==
  {"id", "kind", "backend", "name", "description", "geometry", "acceptance", "execution", "metadata", "attachments"}
  \cup CASE k \in {"geometric", "measurement", "assembly"} -> {"check"}
         [] k = "cfd" -> {"materials", "boundaryConditions", "boundary_conditions", "backendOptions", "faceNaming"}
         [] OTHER -> {"materials", "loads", "boundaryConditions", "boundary_conditions", "backendOptions", "faceNaming"}
B(b) == IF b THEN 1 ELSE 0
EW(l, e, w) == [l |-> l, e |-> e, w |-> w]
LocCrit(i, c) ==
  IF ~c.map THEN << EW(<<"acc", i>>, 1, 0), EW(<<"acc.cmp", i>>, 0, 0) >>
  ELSE << EW(<<"acc", i>>, B(~c.lim), B(c.cmp = "~=" /\ ~c.tol)), EW(<<"acc.cmp", i>>, B(c.cmp # "" /\ c.cmp \notin Cmps), 0) >>
LocItem(n, i, x, types) ==
  IF ~x.map THEN << EW(<<n, i>>, 1, 0), EW(<<n \o ".type", i>>, 0, 0) >>
  ELSE << EW(<<n, i>>, B(x.type = ""), B(~x.id) + B(~x.surf /\ ~x.strat)),
          EW(<<n \o ".type", i>>, B(x.type # "" /\ x.type \notin types), 0) >>
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
IsSim(k) == k \in {"structural", "thermal", "cfd", "multiphysics"}
Seqd(x) == x.t = "list"
PlanLocs(f) ==
  LET miss == f.id = "miss" \/ f.kind = "miss" \/ f.backend = "miss"
      early == miss \/ f.kind \notin Kinds
      sim == ~early /\ IsSim(f.kind)
      g(n) == IF early THEN 0 ELSE n
      s(n) == IF sim THEN n ELSE 0
  IN << EW(<<"">>, B(miss) + g(B(~IsSim(f.kind) /\ f.check = "none")),
                   g(B(f.kind \in {"structural", "thermal"} /\ f.materials = "none"))),
        EW(<<"id">>, g(B(f.id # "ok")), 0),
        EW(<<"kind">>, B(~miss /\ f.kind \notin Kinds), 0),
        EW(<<"backend">>, g(B(f.backend # "ok")), 0),
        EW(<<"geometry">>, g(B(f.geometry = "notmap")), g(B(f.geometry \in {"nosource"}))),
        EW(<<"geometry.entities">>, g(B(f.geometry = "enttext")), 0),
        EW(<<"acceptance">>, g(B(f.acc.t = "notmap")), 0),
        \* a section that the kind does not know is only an unknown field
        EW(<<"check">>, g(B(~IsSim(f.kind) /\ f.check \in {"notmap", "noprop"})), g(B(IsSim(f.kind) /\ f.check # "none"))),
        EW(<<"check.property">>, g(B(~IsSim(f.kind) /\ f.check \notin {"none", "notmap", "noprop"} /\ f.check \notin Checks(f.kind))), 0),
        EW(<<"materials">>, s(B(f.materials = "notmap")), g(B(~IsSim(f.kind) /\ f.materials # "none"))),
        EW(<<"loads">>, s(B(f.loads.t = "notlist")), g(B(f.loads.t # "none" /\ "loads" \notin Fields(f.kind)))),
        EW(<<"bcs">>, s(B(f.bcs.t = "notlist")), g(B(f.bcs.t # "none" /\ ~IsSim(f.kind)))) >>
     \o (IF early \/ f.acc.t # "list" THEN <<>> ELSE Cat([i \in 1..Len(f.acc.v) |-> LocCrit(i, f.acc.v[i])]))
     \o (IF ~sim \/ ~Seqd(f.loads) THEN <<>> ELSE Cat([i \in 1..Len(f.loads.v) |-> LocItem("loads", i, f.loads.v[i], LoadTypes)]))
     \o (IF ~sim \/ ~Seqd(f.bcs) THEN <<>> ELSE Cat([i \in 1..Len(f.bcs.v) |-> LocItem("bcs", i, f.bcs.v[i], BcTypes)]))
     \o (IF early THEN <<>> ELSE [i \in 1..Len(f.extra) |-> EW(<<f.extra[i]>>, 0, B(f.extra[i] \notin Fields(f.kind)))])
ValidOf(ls) == \A i \in 1..Len(ls) : ls[i].e = 0
Plan(s, op) ==
  [st |-> s, obs |->
     IF op.root # "ok" THEN [valid |-> FALSE, locs |-> <<>>, other |-> 0]
     ELSE [valid |-> ValidOf(PlanLocs(op.f)), locs |-> PlanLocs(op.f), other |-> 0]]
(* results *)
ResultLocs(f) ==
  LET miss == f.id = "miss" \/ f.status = "miss"
      g(n) == IF miss THEN 0 ELSE n
  IN << EW(<<"">>, B(miss), 0),
        EW(<<"status">>, g(B(f.status \notin {"passed", "failed", "error", "skipped", "pending"})), 0),
        EW(<<"plan_id">>, g(B(f.id # "ok")), 0),
        EW(<<"metrics">>, g(B(f.metrics = "notmap")), 0),
        EW(<<"acceptance_results">>, g(B(f.acc.t = "notmap")), 0),
        EW(<<"artifacts">>, g(B(f.arts.t = "notlist")), 0) >>
     \o (IF miss \/ f.acc.t # "list" THEN <<>>
         ELSE [i \in 1..Len(f.acc.v) |-> EW(<<"ar", i>>, B(f.acc.v[i] = "notmap"),
                 CASE f.acc.v[i] = "empty" -> 2 [] f.acc.v[i] \in {"value", "passed"} -> 1 [] OTHER -> 0)])
     \o (IF miss \/ f.arts.t # "list" THEN <<>>
         ELSE [i \in 1..Len(f.arts.v) |-> EW(<<"artifact", i>>, B(f.arts.v[i] = "notmap"), B(f.arts.v[i] = "nopath"))])
     \o (IF miss THEN <<>>
         ELSE [i \in 1..Len(f.extra) |-> EW(<<f.extra[i]>>, 0,
                 B(f.extra[i] \notin {"timestamp", "backend", "backend_version", "execution_time_s", "errors", "warnings", "notes"}))])
Result(s, op) ==
  [st |-> s, obs |->
     IF op.root # "ok" THEN [valid |-> FALSE, locs |-> <<>>, other |-> 0]
     ELSE [valid |-> ValidOf(ResultLocs(op.f)), locs |-> ResultLocs(op.f), other |-> 0]]

AApply(s, op) ==
  CASE op.k = "analyze" -> Analyze(s, op)
    [] op.k = "accept" -> Accept(s, op)
    [] op.k = "plan" -> Plan(s, op)
    [] op.k = "result" -> Result(s, op)
\* one entry per plan and per result, and results only of recorded plans
AGood(s) ==
  /\ \A i, j \in 1..Len(s.plans) : s.plans[i].id = s.plans[j].id => i = j
  /\ \A i, j \in 1..Len(s.results) : s.results[i].plan = s.results[j].plan => i = j
  /\ \A i \in 1..Len(s.results) : Find(s.plans, "id", s.results[i].plan) # {}
=============================================================================
