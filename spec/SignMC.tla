---- MODULE SignMC ----
(* bounded model: two keys per method, three contents, tampering with signature files, all trust sets *)
EXTENDS Sign, Json, IOUtils
CONSTANTS Depth
VARIABLES ini, st, hist, done
Trusts == { [gpgk |-> k, gpgt |-> t, ssh |-> s, ring |-> r] :
              k \in {<<"g1", "g2">>}, t \in {<<>>, <<"g1">>}, s \in {<<>>, <<"s1">>}, r \in {FALSE} }
Ops(s) ==
  { [k |-> "sign", m |-> mk[1], key |-> mk[2], add |-> a, fail |-> FALSE, signer |-> "", how |-> 0]
       : mk \in {<<"gpg", "g1">>, <<"gpg", "g2">>, <<"ssh", "s1">>, <<"ssh", "s2">>}, a \in BOOLEAN }
  \cup { [k |-> "edit", c |-> c, how |-> 0] : c \in {0, 1} }
  \cup { [k |-> "format", how |-> 0], [k |-> "list"] }
  \cup { [k |-> "junk", i |-> i, how |-> h] : i \in 1..Len(s.sigs), h \in {"gone", "junk"} }
  \cup { [k |-> "swap", i |-> i, j |-> i + 1] : i \in 1..Len(s.sigs) - 1 }
  \cup { [k |-> "verify", t |-> t] : t \in Trusts }
M == INSTANCE ModelBase WITH ApplyOp <- SApply, InitSet <- {0}, InitState <- SInit, OpsFor <- Ops
MInit == M!MInit
MNext == M!MNext
MView == <<st, Len(hist)>>
InvIntegrity == LawIntegrity(st)
(* verification depends on nothing but the signatures, the content and the trust: swapping twice changes nothing *)
InvSwap == \A i \in 1..Len(st.sigs) - 1 :
   LET sw == [k |-> "swap", i |-> i, j |-> i + 1] IN SApply(SApply(st, sw).st, sw).st = st
(* returning to a content makes its signatures good again *)
InvReturn == \A i \in 1..Len(st.sigs) :
   (Good1(st.sigs[i]) /\ st.sigs[i].m = st.sigs[i].as) =>
      Status([st EXCEPT !.c = st.sigs[i].c], st.sigs[i], AllTrust) = "VALID"
====
