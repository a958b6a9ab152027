---- MODULE GrafMC ----
(* bounded model: two parts with a face, an axis and holes, mates of several kinds, bolts and an analysis set-up *)
EXTENDS Graf, Json, IOUtils
CONSTANTS Depth
VARIABLES ini, st, hist, done
Dm(n, ty, o, v, r) == [n |-> n, ty |-> ty, o |-> o, v |-> v, w |-> Zero3, r |-> r]
DefA == [n |-> "D0", mat |-> "PETG-CF", proc |-> "", gs |-> <<>>,
         ds |-> << Dm("f", "plane", <<3, 0, 1>>, <<1, 0, 0>>, 0), Dm("x", "axis", <<0, 3, 0>>, <<0, 3, 4>>, 0),
                   Dm("top_bolt_circle", "circle", <<0, 0, 5>>, <<0, 0, 1>>, 4), Dm("bot_bolt_circle", "circle", <<0, 0, -5>>, <<0, 0, 1>>, 4),
                   Dm("top_bolt_hole_0", "axis", <<4, 0, 5>>, <<0, 0, -1>>, 0), Dm("top_bolt_hole_1", "axis", <<-4, 0, 5>>, <<1, 0, 0>>, 0),
                   Dm("bot_bolt_hole_2", "axis", <<0, 4, -5>>, <<0, -1, 0>>, 0) >>]
Ms == { <<"coincident", "f", "f">>, <<"concentric", "x", "x">>, <<"revolute", "x", "x">>, <<"angle", "x", "f">>, <<"rigid", "x", "x">>, <<"parallel", "f", "x">> }
Poses == { Id, [R |-> RotM(<<0, 0, 1>>, 90), t |-> <<0, 4, -3>>], [R |-> RotM(<<1, 0, 0>>, 90), t |-> <<-1, 0, 2>>] }
Lc == [id |-> "L", part |-> "a", group |-> "custom", frame |-> "mesh", status |-> "tribal", n |-> 5, g |-> -1, dir |-> <<0, 0, 1>>, pos |-> <<1, 2, 3>>,
       iface |-> "", clock |-> -1, bolt |-> 2, warn |-> TRUE, name |-> "l", desc |-> "", src |-> "s"]
G1 == [owner |-> "b", mate |-> "a", ref |-> "top", kind |-> "radial", hax |-> 1, hrad |-> 2, shank |-> 7]
Fea(p, q, gs) == [k |-> "fea", roots |-> << [b |-> "a", pose |-> p] >>, poses |-> <<q>>, groups |-> gs, at |-> <<>>, lc |-> ""]
OpsOf(s) ==
  { [k |-> "part", n |-> n, def |-> "D0"] : n \in {"a", "b"} }
  \cup { [k |-> "mate", n |-> "m", ty |-> m[1], p1 |-> "a", d1 |-> m[2], p2 |-> "b", d2 |-> m[3], ang |-> 30] : m \in Ms }
  \cup { [k |-> "mate", n |-> "m", ty |-> "coincident", p1 |-> "b", d1 |-> "f", p2 |-> "a", d2 |-> "f", ang |-> 0] }
  \cup { [k |-> "bolts", a |-> "a", b |-> "b", pcd |-> 8, nb |-> n, spec |-> "m6-x-20-shcs", ax |-> <<0, 0, -1>>, wz |-> w] : n \in {0, 2, 3}, w \in {-999, 7} }
  \cup { [k |-> "load", lc |-> Lc], [k |-> "load", lc |-> [Lc EXCEPT !.n = -1]] }
  \cup { Fea(p, q, <<>>) : p \in Poses, q \in Poses } \cup { Fea(p, p, <<G1>>) : p \in Poses }
  \cup { [k |-> "export", how |-> "dict"] }
M == INSTANCE ModelBase WITH ApplyOp <- GApply, InitSet <- {[defs |-> <<DefA>>]}, InitState <- GInit, OpsFor <- OpsOf
MInit == M!MInit
MNext == M!MNext
MView == <<st, Len(hist)>>
InvGood == GGood(st)
(* every interface stands for mates of its pair, and every mate has one *)
InvFaces == LET fs == Faces0(st) IN
  /\ \A i, j \in 1..Len(fs) : i # j => <<fs[i].a, fs[i].b>> # <<fs[j].a, fs[j].b>>
  /\ \A i \in 1..Len(st.mates) : \E j \in 1..Len(fs) : fs[j].a = st.mates[i].p1 /\ fs[j].b = st.mates[i].p2
  /\ \A j \in 1..Len(fs) : fs[j].i = j - 1 /\ HasPart(st, fs[j].a) /\ HasPart(st, fs[j].b)
(* moving the root moves every part and every bolt on a hole with it *)
InvRigid == \A q \in Poses : LET o(p) == GApply(st, Fea(p, q, <<G1>>)).obs IN \A p \in Poses :
  /\ \A i \in 2..Len(o(p).at) : o(p).at[i].o = Act(p, o(Id).at[i].o) /\ o(p).at[i].x = MV(p.R, o(Id).at[i].x)
  /\ \A i \in 1..Len(o(p).bolts) : Has(World0(Links(st, Fea(p, q, <<G1>>))), "b") =>
        o(p).bolts[i].head = VAdd(MV(p.R, o(Id).bolts[i].head), VScale(2100, p.t)) /\ o(p).bolts[i].ax = MV(p.R, o(Id).bolts[i].ax)
(* a bolt reaches along its axis *)
InvAlong == \A q \in Poses : \A gs \in { <<>>, <<G1>> } : LET bs == GApply(st, Fea(q, q, gs)).obs.bolts IN \A i \in 1..Len(bs) :
  bs[i].tip # bs[i].head => Cross(VSub(bs[i].tip, bs[i].head), bs[i].ax) = Zero3 /\ Dot(VSub(bs[i].tip, bs[i].head), bs[i].ax) > 0
(* as many bolts as the pattern has, or as holes were found *)
InvCount == \A q \in Poses : LET bs == GApply(st, Fea(q, q, <<>>)).obs.bolts IN
  (Len(bs) > 0) = (\E i \in 1..Len(st.mates) : Bolted(st, <<st.mates[i].p1, st.mates[i].p2>>) # <<>>)
====
