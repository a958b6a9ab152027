---- MODULE SegMC ----
EXTENDS Seg, Json, IOUtils
CONSTANTS Depth
VARIABLES ini, st, hist, done
Els == { [id |-> "beam", n |-> 2, d |-> <<2000, 3000>>, wall |-> w, seed |-> 1] : w \in {0, 200} }
Cuts == { [t |-> t, w |-> w, len |-> 0, c |-> 20, f |-> f, id |-> "beam"] : t \in {5, 64, 107}, w \in {"a", "b", "none"}, f \in {"none", "split", "union"} }
Plans == { <<>> } \cup { <<a>> : a \in Cuts } \cup { <<a, b>> : a \in { c \in Cuts : c.t = 64 }, b \in { c \in Cuts : c.t = 5 } }
         \cup { <<a, b, d>> : a \in { c \in Cuts : c.t = 64 }, b \in { c \in Cuts : c.t = 5 /\ c.f = "none" }, d \in { c \in Cuts : c.t = 107 /\ c.f = "none" } }
Segs == { [k |-> "segment", cuts |-> p, build |-> b, union |-> u, solid |-> TRUE] : p \in Plans, b \in BOOLEAN, u \in BOOLEAN }
Ops(s) == Segs
M == INSTANCE ModelBase WITH ApplyOp <- EApply, InitSet <- { [e |-> e] : e \in Els }, InitState <- EInit, OpsFor <- Ops
MInit == M!MInit
MNext == M!MNext
MView == <<ini, IF Len(hist) = 0 THEN 0 ELSE hist[Len(hist)], Len(hist)>>
Last == hist[Len(hist)].obs
R == Len(hist) > 0 /\ Last.res = "ok"
(* the parts tile the element in order *)
InvTile == R => LET p == Last.parts n == Len(p) IN p[1].lo = 0 /\ p[n].hi = 64 * ini.e.n /\ \A i \in 1..(n - 1) : p[i].hi = p[i + 1].lo /\ p[i].lo < p[i].hi
(* mating is mutual, and every joint has exactly one tab or one loose connector, or none was asked for *)
InvMate == R => LET p == Last.parts IN \A i \in 1..Len(p) : \A j \in 1..Len(p[i].mates) : \E k \in 1..Len(p[p[i].mates[j]].mates) : p[p[i].mates[j]].mates[k] = i
Uses(p, t) == Cardinality({ i \in 1..Len(p) : \E j \in 1..Len(p[i].tabs) : p[i].tabs[j] = t })
InvJoint == R => LET p == Last.parts IN \A i \in 1..(Len(p) - 1) :
   Uses(p, p[i].hi) + Cardinality({ j \in 1..Len(Last.loose) : Last.loose[j].at = p[i].hi }) = IF ini.e.wall > 0 /\ hist[Len(hist)].op.build THEN 1 ELSE 0
(* a part that takes a tab sits next to the part that carries it *)
InvFemale == R => LET p == Last.parts IN \A i \in 1..Len(p) : p[i].type = "female" =>
   \E j \in 1..Len(p[i].mates) : LET m == p[p[i].mates[j]] IN m.type = "male" /\ \E k \in 1..Len(m.tabs) : m.tabs[k] \in {p[i].lo, p[i].hi}
====
