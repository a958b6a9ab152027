-------------------------------- MODULE Graf --------------------------------
(* The assembly graph exported for other tools, and the analysis set up from  *)
(* it: parts with their features, mates collapsed into interfaces, bolt       *)
(* patterns, load cases; parts placed along the chain of interfaces and bolts *)
(* placed on their holes.  Datum vectors have integral length, placements are *)
(* exact; positions are scaled by 2100, directions by 105.                    *)
EXTENDS Asm

\* init.defs: seq of [n, ds, mat, proc, gs]
GInit(i) == [defs |-> i.defs, parts |-> <<>>, mates |-> <<>>, bps |-> <<>>, lcs |-> <<>>]

(* ------------------------------------------------------------- vocabulary *)
Material(m) == CASE m \in {"petg", "PETG", "unobtainium", ""} -> "PETG" [] m \in {"PLA", "pla"} -> "PLA" [] m \in {"PETG-CF", "petg_cf"} -> "PetgCf"
                 [] m = "tpu" -> "TPU" [] m = "Abs" -> "ABS" [] m = "asa" -> "ASA" [] m = "PC" -> "PC" [] m \in {"pa-cf", "PA_CF"} -> "PaCf"
                 [] m = "nylon" -> "Nylon" [] m = "Aluminum" -> "Aluminum" [] m = "steel" -> "Steel" [] m = "stainless" -> "Stainless"
                 [] m = "Brass" -> "Brass" [] m = "titanium" -> "Titanium"
DatumKind(t) == CASE t = "point" -> "Point" [] t = "axis" -> "Axis" [] t = "plane" -> "Plane" [] t = "frame" -> "Frame" [] t = "circle" -> "Circle"
Motion(t) == t \in {"rigid", "revolute", "prismatic", "spherical"}
JointKind(t) == CASE t = "revolute" -> "Revolute" [] t = "prismatic" -> "Prismatic" [] t = "spherical" -> "Ball" [] OTHER -> "Fixed"
ConKind(t, moving) == CASE t = "concentric" -> (IF moving THEN "Concentric" ELSE "AxisCoincident")
                        [] t = "coincident" -> "Coincident" [] t = "tangent" -> "Tangent" [] t = "angle" -> "Angle" [] t = "parallel" -> "AxisAlign"
                        [] OTHER -> ""
Up105 == <<0, 0, 105>>
AxisOf(s, m) == LET x == DatumOf(s, m.p1, m.d1) IN IF x.ty = "axis" THEN Unit105(x.v) ELSE Up105

(* ----------------------------------------------------------------- export *)
ShowDatum(x) == [n |-> x.n, ty |-> DatumKind(x.ty), o |-> x.o,
                 dir |-> IF x.ty = "axis" THEN Unit105(x.v) ELSE <<>>, nor |-> IF x.ty \in {"plane", "circle"} THEN Unit105(x.v) ELSE <<>>,
                 r |-> IF x.ty = "circle" THEN x.r ELSE 0]
\* geoms: [ty, r, h, sz, pos, mm]; lengths in whole millimetres, shown in millimetres
Geom(g) == [ty |-> g.ty, r |-> IF g.ty \in {"cylinder", "sphere", "capsule"} THEN g.r ELSE -1,
            h |-> IF g.ty \in {"cylinder", "capsule"} THEN g.h ELSE -1, sz |-> IF g.ty = "box" THEN g.sz ELSE <<>>,
            pos |-> g.pos, path |-> g.ty = "mesh"]
Geoms(gs) == LET q == SelectSeq(gs, LAMBDA g : g.ty # "cone") IN [i \in 1..Len(q) |-> Geom(q[i])]
ShowPart(s, p) == LET d == Get(s.defs, p.def) IN
  [id |-> p.n, mat |-> Material(d.mat), proc |-> IF d.proc = "" THEN "FDM" ELSE d.proc,
   ds |-> [i \in 1..Len(d.ds) |-> ShowDatum(d.ds[i])], gs |-> Geoms(d.gs)]

RECURSIVE Pairs(_, _)
Pairs(ms, seen) == IF ms = <<>> THEN <<>>
  ELSE LET k == <<Head(ms).p1, Head(ms).p2>> IN (IF k \in seen THEN <<>> ELSE <<k>>) \o Pairs(Tail(ms), seen \cup {k})
GroupOf(s, k) == SelectSeq(s.mates, LAMBDA m : m.p1 = k[1] /\ m.p2 = k[2])
Moving(g) == LET q == SelectSeq(g, LAMBDA m : Motion(m.ty)) IN IF q = <<>> THEN [ty |-> "none"] ELSE q[1]
ShowCon(s, m, moving) ==
  LET t == ConKind(m.ty, moving) IN
  [ty |-> t, pd |-> IF t = "AxisAlign" THEN "" ELSE m.d1, cd |-> m.d2, ax |-> IF t = "AxisAlign" THEN AxisOf(s, m) ELSE <<>>,
   ang |-> IF t = "Angle" THEN m.ang ELSE 0]
\* the child is pushed against the first face the constraints name; whether joints may name it too is left open
Faces(s, g) == SelectSeq(g, LAMBDA m : DatumOf(s, m.p1, m.d1).ty \in {"plane", "circle"})
Ins(s, g) == IF Faces(s, g) = <<>> THEN <<>> ELSE VNeg(Unit105(DatumOf(s, Faces(s, g)[1].p1, Faces(s, g)[1].d1).v))
InsOpen(s, g) == \E i \in 1..Len(g) : Motion(g[i].ty) /\ Faces(s, <<g[i]>>) # <<>>
Bolted(s, k) == SelectSeq(s.bps, LAMBDA b : b.a = k[1] /\ b.b = k[2])
ShowFace(s, k, i) ==
  LET g == GroupOf(s, k) j == Moving(g) kind == IF j.ty = "none" THEN "Fixed" ELSE JointKind(j.ty)
      cs == SelectSeq(g, LAMBDA m : ~Motion(m.ty) /\ ConKind(m.ty, FALSE) # "")
      b == Bolted(s, k)
  IN [i |-> i - 1, a |-> k[1], b |-> k[2], joint |-> kind,
      ax |-> IF kind \in {"Revolute", "Prismatic"} THEN AxisOf(s, j) ELSE <<>>,
      cs |-> [n \in 1..Len(cs) |-> ShowCon(s, cs[n], kind # "Fixed")],
      ins |-> IF InsOpen(s, g) THEN <<>> ELSE Ins(s, g),
      bolts |-> IF b = <<>> THEN <<>> ELSE <<b[1].pcd, b[1].nb>>, spec |-> IF b = <<>> THEN "" ELSE b[1].spec]
Open(s) == LET ks == Pairs(s.mates, {}) IN \E i \in 1..Len(ks) : InsOpen(s, GroupOf(s, ks[i]))
Faces0(s) == LET ks == Pairs(s.mates, {}) IN [i \in 1..Len(ks) |-> ShowFace(s, ks[i], i)]
Snapshot(s) == [parts |-> [i \in 1..Len(s.parts) |-> ShowPart(s, s.parts[i])], faces |-> Faces0(s),
                loads |-> [i \in 1..Len(s.lcs) |-> s.lcs[i].lc], rest |-> TRUE]

(* ------------------------------------------------------------- load cases *)
BadLoad(l) == \/ l.group \notin {"inertial", "recovery", "pressure", "handling", "custom"} \/ l.frame \notin {"vehicle", "mesh"}
              \/ l.status \notin {"confirmed", "estimated", "tribal", "placeholder"} \/ (l.n < 0 /\ l.g < 0) \/ Len(l.dir) # 3
BadBolts(b) == b.pcd <= 0 \/ b.nb <= 0 \/ Len(b.ax) # 3

(* ---------------------------------------------------- placing in the world *)
\* links: seq of [a, b, pose]; the first link that reaches a part places it, breadth first
RECURSIVE Spread(_, _, _)
Spread(queue, placed, links) ==
  IF queue = <<>> THEN placed
  ELSE LET c == Head(queue) P == Get(placed, c).pose
           kids == SelectSeq(links, LAMBDA l : l.a = c)
           RECURSIVE Add(_, _)
           Add(ks, pl) == IF ks = <<>> THEN pl
                          ELSE Add(Tail(ks), IF Has(pl, Head(ks).b) THEN pl ELSE Append(pl, [n |-> Head(ks).b, pose |-> Comp(P, Head(ks).pose)]))
           np == Add(kids, placed)
       IN Spread(Tail(queue) \o [i \in 1..(Len(np) - Len(placed)) |-> np[Len(placed) + i].n], np, links)
World0(links) == Spread(<<"world">>, << [n |-> "world", pose |-> Id] >>, links)
\* roots: seq of [b, pose]; poses of the interfaces in their order
Links(s, op) == [i \in 1..Len(op.roots) |-> [a |-> "world", b |-> op.roots[i].b, pose |-> op.roots[i].pose]]
                \o [i \in 1..Len(Faces0(s)) |-> [a |-> Faces0(s)[i].a, b |-> Faces0(s)[i].b, pose |-> op.poses[((i - 1) % Len(op.poses)) + 1]]]

(* ------------------------------------------------------------------ bolts *)
\* 20 times the length and 100 times the diameter of a known bolt
Bolt(sp) == CASE sp = "1-4-20-x-1in-button-head-shcs" -> <<508, 635>> [] sp = "1-4-20-x-1-25in-button-head-shcs" -> <<635, 635>>
              [] sp = "1-4-20-button-head-shcs" -> <<508, 635>> [] sp = "m5-x-16-shcs" -> <<320, 500>> [] sp = "m5-x-20-shcs" -> <<400, 500>>
              [] sp = "m6-x-20-shcs" -> <<400, 600>> [] OTHER -> <<508, 500>>
Clock(x, y) == CASE x > 0 /\ y = 0 -> 0 [] x > 0 /\ y > 0 -> 45 [] x = 0 /\ y > 0 -> 90 [] x < 0 /\ y > 0 -> 135 [] x < 0 /\ y = 0 -> 180
                 [] x < 0 /\ y < 0 -> 225 [] x = 0 /\ y < 0 -> 270 [] x > 0 /\ y < 0 -> 315 [] OTHER -> 0
HoleName(pre, i) == pre \o "_bolt_hole_" \o ToString(i)
\* groups: seq of [owner, mate, ref, kind, hax, hrad, shank]
YamlFor(gs, a, b) == LET p == SelectSeq(gs, LAMBDA g : g.owner = a /\ g.mate = b) c == SelectSeq(gs, LAMBDA g : g.owner = b /\ g.mate = a)
                     IN IF p # <<>> THEN <<p[1]>> ELSE IF c # <<>> THEN <<c[1]>> ELSE <<>>
NoGroup(owner) == [owner |-> owner, mate |-> "", ref |-> "", kind |-> "", hax |-> 0, hrad |-> 0, shank |-> 0]
DsOf(s, p) == IF HasPart(s, p) THEN DefOf(s, p).ds ELSE <<>>
Nearer(s, f, pose) == LET ds == DsOf(s, f.a) z == pose.t[3] t == Has(ds, "top_bolt_circle") b == Has(ds, "bot_bolt_circle")
  IN IF t /\ (~b \/ Abs(z - Get(ds, "top_bolt_circle").o[3]) <= Abs(z - Get(ds, "bot_bolt_circle").o[3])) THEN "top" ELSE "bot"
RECURSIVE Holes(_, _, _, _)
Holes(ds, pre, i, left) == IF i > 9 \/ left = 0 THEN <<>>
  ELSE IF Has(ds, HoleName(pre, i)) /\ Get(ds, HoleName(pre, i)).ty = "axis"
       THEN << [i |-> i, o |-> Get(ds, HoleName(pre, i)).o, u |-> Unit105(Get(ds, HoleName(pre, i)).v)] >> \o Holes(ds, pre, i + 1, left - 1)
       ELSE Holes(ds, pre, i + 1, left)
BoltsOf(s, f, pose, placed, op) ==
  LET b == Bolted(s, <<f.a, f.b>>)[1]
      y == YamlFor(op.groups, f.a, f.b)
      g == IF y # <<>> THEN y[1] ELSE NoGroup(f.a)
      pre == IF y # <<>> THEN g.ref ELSE Nearer(s, f, pose)
      hs == IF Has(placed, g.owner) THEN Holes(DsOf(s, g.owner), pre, 0, b.nb) ELSE <<>>
      P == Get(placed, g.owner).pose
      kind == IF g.kind # "" THEN g.kind ELSE IF Abs(hs[1].u[3]) > 84 THEN "axial" ELSE "radial"
      len == IF g.shank > 0 THEN 20 * g.shank ELSE Bolt(b.spec)[1]
      base == [f |-> f.i, a |-> f.a, b |-> f.b, spec |-> b.spec, pcd |-> b.pcd, d2 |-> Bolt(b.spec)[2] * Bolt(b.spec)[2]]
      one(h) == LET head == VAdd(VScale(2100, h.o), VScale(20 * (IF kind = "radial" THEN -g.hrad ELSE g.hax), h.u))
                    put(x) == VAdd(MV(P.R, x), VScale(2100, P.t))
                IN base @@ [i |-> h.i, head |-> put(head), tip |-> put(VAdd(head, VScale(len, h.u))), ax |-> MV(P.R, h.u), clk |-> Clock(h.o[1], h.o[2])]
      \* evenly around the pattern, at the given place or height
      org == IF Has(op.at, ToString(f.i)) THEN Get(op.at, ToString(f.i)).o ELSE <<0, 0, IF b.wz = -999 THEN 0 ELSE b.wz>>
      back == IF Has(op.at, ToString(f.i)) THEN Get(op.at, ToString(f.i)).o ELSE org
      ring(n, o) == LET c == (360 * n) \div b.nb IN
                 IF c % 90 = 0 THEN VAdd(VScale(2100, o), CASE c = 0 -> <<1050 * b.pcd, 0, 0>> [] c = 90 -> <<0, 1050 * b.pcd, 0>>
                                                         [] c = 180 -> <<-1050 * b.pcd, 0, 0>> [] OTHER -> <<0, -1050 * b.pcd, 0>>)
                 ELSE <<b.pcd, c, 2100 * o[3], 0>>          \* diameter, angle, height
  IN IF hs # <<>> THEN [k \in 1..Len(hs) |-> one(hs[k])]
     ELSE [k \in 1..b.nb |-> base @@ [i |-> k - 1, head |-> ring(k - 1, org), tip |-> ring(k - 1, back),
                                      ax |-> Unit105(b.ax), clk |-> (360 * (k - 1)) \div b.nb]]
RECURSIVE AllBolts(_, _, _, _)
AllBolts(s, fs, placed, op) ==
  IF fs = <<>> THEN <<>>
  ELSE LET f == Head(fs) b == Bolted(s, <<f.a, f.b>>) IN
    (IF b = <<>> \/ b[1].spec = "PLACEHOLDER-m5" THEN <<>>
     ELSE BoltsOf(s, f, op.poses[(f.i % Len(op.poses)) + 1], placed, op)) \o AllBolts(s, Tail(fs), placed, op)
Attach(l) == [id |-> l.id, part |-> l.part, iface |-> l.iface, pos |-> l.pos, dir |-> l.dir, n |-> IF l.n < 0 THEN 0 ELSE l.n,
              frame |-> l.frame, bolt |-> l.bolt, clock |-> l.clock]

GApply(s, op) ==
  CASE op.k = "part" -> IF HasPart(s, op.n) THEN Err(s) ELSE Ok([s EXCEPT !.parts = Append(@, [n |-> op.n, def |-> op.def, pose |-> Id])])
    [] op.k = "mate" ->
         IF HasDatum(s, op.p1, op.d1) /\ HasDatum(s, op.p2, op.d2) /\ MateOk(op.ty, DatumOf(s, op.p1, op.d1).ty, DatumOf(s, op.p2, op.d2).ty)
         THEN Ok([s EXCEPT !.mates = Append(@, [ty |-> op.ty, p1 |-> op.p1, d1 |-> op.d1, p2 |-> op.p2, d2 |-> op.d2, ang |-> op.ang])])
         ELSE Err(s)
    [] op.k = "bolts" ->
         IF BadBolts(op) THEN Ret(s, [res |-> "exc:ValueError"])
         ELSE IF ~HasPart(s, op.a) \/ ~HasPart(s, op.b) \/ (\E i \in 1..Len(s.bps) : s.bps[i].a = op.a /\ s.bps[i].b = op.b) THEN Err(s)
         ELSE Ok([s EXCEPT !.bps = Append(@, [a |-> op.a, b |-> op.b, pcd |-> op.pcd, nb |-> op.nb, spec |-> op.spec, ax |-> op.ax, wz |-> op.wz])])
    [] op.k = "load" ->
         IF BadLoad(op.lc) THEN Ret(s, [res |-> "exc:ValueError"])
         ELSE IF (op.lc.part # "_assembly" /\ ~HasPart(s, op.lc.part)) \/ Has(s.lcs, op.lc.id) THEN Err(s)
         ELSE Ok([s EXCEPT !.lcs = Append(@, [n |-> op.lc.id, lc |-> op.lc])])
    [] op.k = "export" ->
         Ret(s, [res |-> "ok", snap |-> IF Open(s) THEN [Snapshot(s) EXCEPT !.faces = [i \in 1..Len(@) |-> [@[i] EXCEPT !.ins = <<>>]]] ELSE Snapshot(s)])
    [] op.k = "fea" ->
         IF op.lc # "" /\ ~Has(s.lcs, op.lc) THEN Ret(s, [res |-> "exc:KeyError"])
         ELSE LET placed == World0(Links(s, op)) IN
              Ret(s, [res |-> "ok", bolts |-> AllBolts(s, Faces0(s), placed, op),
                      at |-> [i \in 1..Len(placed) |-> [n |-> placed[i].n, o |-> placed[i].pose.t, x |-> Col(placed[i].pose.R, 1), z |-> Col(placed[i].pose.R, 3)]],
                      load |-> IF op.lc = "" THEN [id |-> ""] ELSE Attach(Get(s.lcs, op.lc).lc)])
    [] op.k = "broken" -> Ret(s, [res |-> op.e])
    [] op.k = "turn" -> Ret(s, [res |-> "ok", p |-> <<op.v[2], op.v[3], op.v[1]>>, d |-> <<op.v[2], op.v[3], op.v[1]>>])
GGood(s) ==
  /\ Cardinality({ s.parts[i].n : i \in 1..Len(s.parts) }) = Len(s.parts)
  /\ \A i \in 1..Len(s.mates) : HasPart(s, s.mates[i].p1) /\ HasPart(s, s.mates[i].p2)
=============================================================================
