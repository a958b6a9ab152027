---- MODULE OpsMC ----
(* bounded model: a bar, a second part and two cutters that may aim at each other, with all policies and stages *)
EXTENDS Ops, Json, IOUtils
CONSTANTS Depth
VARIABLES ini, st, hist, done
NoOp == [kind |-> "", tf |-> <<>>, pr |-> -1, co |-> "-", po |-> "-", st |-> "-"]
Cu(k, tf, pr, co, po, sg) == [kind |-> k, tf |-> tf, pr |-> pr, co |-> co, po |-> po, st |-> sg]
P(n, geo, lo, hi, wide, o) == [k |-> "put", n |-> n, geo |-> geo, lo |-> lo, hi |-> hi, wide |-> wide, o |-> o, via |-> "api"]
Os == { Cu("subtract", <<"ta">>, -1, "-", "-", "s1"), Cu("union", <<"tb", "ta">>, 10, "n", "warn", "s2"),
        Cu("intersect", <<"ta", "cb">>, 60, "y", "ignore", "-"), Cu("subtract", <<>>, -1, "-", "-", "-") }
OpsOf(s) ==
  { P("ta", TRUE, 0, 6, FALSE, NoOp), P("tb", TRUE, 2, 7, TRUE, NoOp) }
  \cup { P("ca", g, 1, 3, TRUE, o) : g \in BOOLEAN, o \in Os }
  \cup { P("cb", TRUE, 2, 5, w, o) : w \in BOOLEAN, o \in { Cu("subtract", <<"ta", "ca">>, 60, "-", "warn", "s2"), Cu("union", <<"ta">>, -1, "n", "-", "-"), NoOp } }
  \cup { [k |-> "fail", ns |-> q] : q \in {<<>>, <<"ca">>} }
  \cup { [k |-> "run", how |-> h, stages |-> q, real |-> FALSE] : h \in {"basic", "env"}, q \in {<<>>} }
  \cup { [k |-> "run", how |-> "staged", stages |-> q, real |-> FALSE] : q \in { <<"s1", "s2">>, <<"s2", "s1">>, <<"s3">> } }
  \cup (IF s.res # <<>> THEN { [k |-> "feed"] } ELSE {})
M == INSTANCE ModelBase WITH ApplyOp <- OpsApply, InitSet <- {[x |-> 0]}, InitState <- OpsInit, OpsFor <- OpsOf
MInit == M!MInit
MNext == M!MNext
MView == <<st, Len(hist)>>
B == Run(st, "basic", <<>>)
S12 == Run(st, "staged", <<"s1", "s2">>)
(* a part that is not a consumed cutter is never lost, and nothing appears from nowhere *)
InvKept == \A r \in {B, S12} : \A i \in 1..Len(st.ps) : LET p == st.ps[i] IN
  /\ p.geo /\ (p.o.kind = "" \/ ~Consumed(p.o)) => HasN(r.ps, p.n)
  /\ \A j \in 1..Len(r.ps) : HasN(st.ps, r.ps[j].n) /\ GetN(st.ps, r.ps[j].n).geo
(* a part nobody aims at is untouched *)
InvAlone == \A r \in {B, S12} : \A j \in 1..Len(r.ps) :
  (\A c \in 1..Len(st.ps) : st.ps[c].o.kind = "" \/ ~In(r.ps[j].n, st.ps[c].o.tf)) => r.ps[j].g = GetN(st.ps, r.ps[j].n).g
(* one stage is one pass *)
InvOne == Run(st, "staged", <<"x">>) = B
(* applied operations come in order of priority in one pass *)
InvOrder == \A j \in 1..Len(B.ps) : \A a, b \in 1..Len(B.ps[j].r.ap) :
  a < b => Pri(GetN(st.ps, B.ps[j].r.ap[a]).o) <= Pri(GetN(st.ps, B.ps[j].r.ap[b]).o)
(* nothing fails silently unless it was asked to: every attempt is applied, warned about or an error, except ignored ones *)
InvCount == \A j \in 1..Len(B.ps) : LET r == B.ps[j].r
   m == SelectSeq(Mine(Cutters(st), B.ps[j].n), LAMBDA c : Policy(c.o) # "ignore" \/ (HasN(Geo(st), c.n) /\ ~In(c.n, st.fails)))
   IN Aimless(st) = <<>> => Len(r.ap) + Len(r.wa) + Len(r.er) = Len(m)
(* the order of the stages only decides the order: subtract-only parts end up the same *)
InvDone == st.fails = <<>> /\ Aimless(st) = <<>> => \A j \in 1..Len(S12.ps) : HasN(B.ps, S12.ps[j].n) =>
   ((\A c \in 1..Len(st.ps) : st.ps[c].o.kind \in {"", "subtract"} /\ ~In("cb", st.ps[c].o.tf)) => S12.ps[j].g = GetN(B.ps, S12.ps[j].n).g)
====
