---- MODULE KinMC ----
(* bounded model: three parts, a mount frame, both joint kinds, limits *)
EXTENDS Kin, Json, IOUtils
CONSTANTS Depth, MaxParts
VARIABLES ini, st, hist, done
Tf0 == Trans(<<2, 0, 1>>)
Tf1 == [R |-> RotM(<<1, 0, 0>>, 90), t |-> <<0, 3, 0>>]
Fr == <<[n |-> "MNT", tf |-> Tf1]>>
PartNames == <<"A", "B", "C", "D">>
Mk(n, par, pf, jt, ax) == [k |-> "add", name |-> n, parent |-> par, pframe |-> pf, jt |-> jt,
   axis |-> ax, base |-> Tf0, val |-> 0, lo |-> -90, hi |-> 180, frames |-> Fr]
Ops(s) ==
  LET used == { s.order[i] : i \in 1..Len(s.order) }
      nm == used \cup {"X"}
      new == IF Len(s.order) < MaxParts THEN PartNames[Len(s.order) + 1] ELSE "A"
  IN { Mk(new, par, pf, jc[1], jc[2]) : par \in {"", "X"} \cup used, pf \in {"MNT", "NOPE"},
        jc \in {<<"revolute", <<0, 0, 1>>>>, <<"prismatic", <<0, 2, 0>>>>} }
     \cup { [k |-> "set", name |-> n, val |-> v, clamp |-> c] : n \in nm, v \in {90, 270}, c \in BOOLEAN }
     \cup { [k |-> "world", name |-> n, frame |-> f] : n \in nm, f \in {"ORIGIN", "MNT"} }
     \cup { [k |-> "rel", a |-> a, b |-> b, fa |-> "ORIGIN", fb |-> "MNT"] : a \in used, b \in used }
     \cup { [k |-> "roundtrip", perm |-> 0] }
     \cup { [k |-> "describe"] }
     \cup { [k |-> "tree", name |-> n] : n \in nm }
M == INSTANCE ModelBase WITH ApplyOp <- KApply, InitSet <- {0}, InitState <- KInit, OpsFor <- Ops
MInit == M!MInit
MNext == M!MNext
MView == <<st, Len(hist)>>
InvCache == CacheCoherent(st)
InvTree == TreeOk(st)
InvRigid == Rigid(st)
InvRel == RelId(st)
InvFrames == FramesOk(st)
InvChildren == ChildrenOk(st)
(* a clamped set never leaves the limits *)
InvClamp == \A i \in 1..Len(hist) : (hist[i].op.k = "set" /\ hist[i].op.clamp /\ hist[i].obs.res = "ok")
                => hist[i].obs.val \in -90..180
====
