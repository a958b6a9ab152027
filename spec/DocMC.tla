---- MODULE DocMC ----
(* bounded model: two surfaces, solids that may share them, a nested sketch; written, copied, changed, read *)
EXTENDS Doc, Json, IOUtils
CONSTANTS Depth
VARIABLES ini, st, hist, done
Geo(n) == [bad |-> n = 9, v |-> <<<<0, 0, n>>, <<n, 0, 0>>, <<0, n, 0>>>>, n |-> <<<<0, 0, 1>>, <<0, 0, 1>>, <<0, 0, 1>>>>,
           f |-> <<<<0, 1, 2>>>>, b |-> <<0, 1, 2>>, h |-> <<>>]
SGeo == [bad |-> FALSE, mat |-> <<>>, con |-> <<"procedure", "x">>]
KGeo == [bad |-> FALSE]
Sk == << [k |-> "line", p |-> <<<<0, 0, 0>>, <<2, 0, 0>>>>, x |-> <<>>, sub |-> <<>>],
         [k |-> "group", p |-> <<>>, x |-> <<>>, sub |->
             << [k |-> "poly", p |-> <<<<0, 0, 1>>, <<2, 0, 1>>, <<2, 3, 1>>>>, x |-> <<>>, sub |-> <<>>],
                [k |-> "point", p |-> <<<<1, 1, 0>>>>, x |-> <<>>, sub |-> <<>>] >>] >>
L(l) == [RootMeta EXCEPT !.layer = l]
V == {NoOver, [NoOver EXCEPT !.layer = "L2", !.tags = <<"t">>, !.hastags = TRUE, !.id = "X"]}
Hs(s) == 1..Len(s.live)
Of(s, t) == {h \in Hs(s) : s.live[h].t = t}
Ops(s) ==
  (IF Len(s.live) > 6 THEN {} ELSE
     { [k |-> "surface", id |-> i, meta |-> L(l), geo |-> Geo(Len(s.live) + 1)] : i \in {"", "S"}, l \in {"default", "L1"} }
     \cup { [k |-> "solid", id |-> i, meta |-> L("LS"), geo |-> SGeo, shell |-> sh, voids |-> <<>>]
              : i \in {"", "S"}, sh \in {<<h>> : h \in Of(s, "surface")} }
     \cup { [k |-> "copy", h |-> h] : h \in Of(s, "solid") }
     \cup { [k |-> "sketch", prims |-> Sk, geo |-> KGeo] : x \in {y \in {1} : Of(s, "sketch") = {}} })
  \cup (IF Len(s.docs) > 1 \/ Len(s.live) < 2 THEN {} ELSE
     { [k |-> "write", text |-> TRUE, items |-> [i \in 1..Len(w) |-> [h |-> w[i], over |-> v, form |-> "dict"]]]
         : w \in {<<h, g>> : h \in Hs(s), g \in Hs(s)}, v \in V })
  \cup { [k |-> "set", h |-> h, f |-> "layer", val |-> "LX"] : h \in Hs(s) \ Of(s, "sketch") }
  \cup { [k |-> "read", d |-> d] : d \in {x \in 1..Len(s.docs) : Len(s.live) < 7} }
  \cup UNION { { [k |-> "tamper", d |-> d, how |-> w, i |-> i] : w \in {"drop", "noid", "front"}, i \in 1..Len(s.docs[d].entries) }
                  : d \in 1..Len(s.docs) }
M == INSTANCE ModelBase WITH ApplyOp <- DocApply, InitSet <- {[x |-> 0]}, InitState <- DocInit, OpsFor <- Ops
MInit == M!MInit
MNext == M!MNext
MView == <<st, Len(hist)>>
Plain == \A i \in 1..Len(hist) : hist[i].op.k # "tamper"
(* what the writer makes has unique ids and no dangling references *)
InvUnique == Plain => \A i \in 1..Len(st.docs) : Unique(st.docs[i]) /\ Readable(st.docs[i])
(* reading a document just written gives the entities written, in order *)
Last == hist[Len(hist)]
Shape(live, h) == LET e == live[h] IN
  <<e.t, e.geo, NormAll(e.prims), [i \in 1..Len(e.shell) |-> live[e.shell[i]].geo],
    [i \in 1..Len(e.voids) |-> [j \in 1..Len(e.voids[i]) |-> live[e.voids[i][j]].geo]]>>
InvRound == (Len(hist) > 0 /\ Last.op.k = "write" /\ Last.obs.res = "ok") =>
   LET d == st.docs[Len(st.docs)]
       r == LoadAll(d, d.entries, st.live, <<>>)
   IN /\ Len(r.top) = Len(Last.op.items)
      /\ \A i \in 1..Len(r.top) : /\ Shape(r.live, r.top[i]) = Shape(st.live, Last.op.items[i].h)
                                  /\ r.top[i] > Len(st.live)
      /\ \A h \in 1..Len(st.live) : r.live[h] = st.live[h]
(* solids read do not share surfaces, even if those written did *)
InvApart == Plain => \A i \in 1..Len(st.docs) : LET r == LoadAll(st.docs[i], st.docs[i].entries, <<>>, <<>>)
               IN \A a, b \in 1..Len(r.live) : (a # b /\ r.live[a].t = "solid" /\ r.live[b].t = "solid") =>
                    \A x \in 1..Len(r.live[a].shell), y \in 1..Len(r.live[b].shell) : r.live[a].shell[x] # r.live[b].shell[y]
====
