------------------------------- MODULE Sign -------------------------------
(* Signing and verifying a package.  The signed content is an integer (equal *)
(* integers: manifests equal up to formatting and the signatures section).   *)
(* A signature is [m |-> method, key, c |-> content signed]; a signature     *)
(* file can also be "gone" or "junk".                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SInit(i) == [c |-> 0, sigs |-> <<>>, alien |-> FALSE]
Good1(s) == s.s = "sig"
(* trust: [gpgk |-> keys the verifier has, gpgt |-> those it trusts, ssh |-> keys in the allowed signers,   *)
(*         ring |-> an explicit keyring is used]                                                            *)
Status(st, s, t) ==
  IF s.s = "gone" THEN "ERROR"
  ELSE IF s.s = "junk" \/ s.m # s.as THEN "bad"         \* not a signature of that method: invalid or an error
  ELSE IF s.m = "ssh"
       THEN IF s.c # st.c THEN "INVALID"
            ELSE IF \E i \in 1..Len(t.ssh) : t.ssh[i] = s.key THEN "VALID" ELSE "VALID_UNTRUSTED"
  ELSE IF ~\E i \in 1..Len(t.gpgk) : t.gpgk[i] = s.key THEN "ERROR"
  ELSE IF s.c # st.c THEN "INVALID"
  ELSE IF t.ring THEN "good"                            \* trust in an explicit keyring is left open
  ELSE IF \E i \in 1..Len(t.gpgt) : t.gpgt[i] = s.key THEN "VALID" ELSE "VALID_UNTRUSTED"
Count(ss, x) == Cardinality({ i \in 1..Len(ss) : ss[i] = x })
SApply(st, op) ==
  CASE op.k = "sign" ->
        IF op.fail THEN [st |-> st, obs |-> [res |-> "SigningError", n |-> Len(st.sigs)]]
        ELSE LET e == [s |-> "sig", m |-> op.m, as |-> op.m, key |-> op.key, c |-> st.c]
                 n == IF op.add THEN Append(st.sigs, e) ELSE <<e>>
             IN [st |-> [st EXCEPT !.sigs = n, !.alien = IF op.add THEN @ ELSE FALSE],
                 \* one entry per signature, each with a file of its own
                 obs |-> [res |-> "ok", n |-> Len(n), own |-> TRUE, m |-> op.m, key |-> op.key, signer |-> op.signer]]
    [] op.k = "edit" -> [st |-> [st EXCEPT !.c = op.c], obs |-> [res |-> "ok"]]
    [] op.k = "format" -> [st |-> st, obs |-> [res |-> "ok"]]
    [] op.k = "junk" -> [st |-> [st EXCEPT !.sigs[op.i].s = op.how], obs |-> [res |-> "ok"]]
    [] op.k = "swap" ->       \* the files of two signatures change places
        LET a == st.sigs[op.i] b == st.sigs[op.j]
        IN [st |-> [st EXCEPT !.sigs[op.i] = [b EXCEPT !.as = a.as], !.sigs[op.j] = [a EXCEPT !.as = b.as]],
            obs |-> [res |-> "ok"]]
    [] op.k = "alien" -> [st |-> [st EXCEPT !.alien = TRUE], obs |-> [res |-> "ok"]]
    [] op.k = "verify" ->
        LET ss == [i \in 1..Len(st.sigs) |-> Status(st, st.sigs[i], op.t)]
            v == Count(ss, "VALID")  u == Count(ss, "VALID_UNTRUSTED")  g == Count(ss, "good")
        IN [st |-> st,
            obs |-> [res |-> "ok", ss |-> ss, warned |-> st.sigs = <<>> /\ ~st.alien,
                     trusted |-> IF g > 0 THEN 0 - 1 ELSE v, untrusted |-> IF g > 0 THEN 0 - 1 ELSE u,
                     valid |-> IF g > 0 THEN "open" ELSE IF v > 0 THEN "yes" ELSE "no",
                     overall |-> IF st.alien THEN "ERROR"
                                 ELSE IF v > 0 THEN "VALID"
                                 ELSE IF g > 0 THEN "good"
                                 ELSE IF u > 0 THEN "VALID_UNTRUSTED"
                                 ELSE IF Count(ss, "INVALID") > 0 THEN "INVALID"
                                 ELSE IF Count(ss, "bad") > 0 THEN "bad" ELSE "ERROR"]]
    [] op.k = "list" ->
        [st |-> st, obs |-> [res |-> "ok", n |-> Len(st.sigs) + (IF st.alien THEN 1 ELSE 0)]]
(* laws, checked on the bounded model *)
AllTrust == [gpgk |-> <<"g1", "g2", "g3">>, gpgt |-> <<"g1", "g2", "g3">>, ssh |-> <<"s1", "s2">>, ring |-> FALSE]
NoTrust == [gpgk |-> <<>>, gpgt |-> <<>>, ssh |-> <<>>, ring |-> FALSE]
\* a signature over another content is never accepted, and with nobody trusted nothing is VALID
LawIntegrity(st) == \A i \in 1..Len(st.sigs) :
   LET s == st.sigs[i]
   IN /\ (s.s # "sig" \/ s.c # st.c) => Status(st, s, AllTrust) \notin {"VALID", "VALID_UNTRUSTED", "good"}
      /\ Status(st, s, NoTrust) # "VALID"
SGood(st) == LawIntegrity(st)
=============================================================================
