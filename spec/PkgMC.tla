---- MODULE PkgMC ----
(* bounded model: two entity lists, three paths, two byte contents, two hash algorithms *)
EXTENDS Pkg, Json, IOUtils
CONSTANTS Depth
VARIABLES ini, st, hist, done
X0 == [purpose |-> "", note |-> "", format |-> "", kind |-> "", id |-> ""]
Meta == [name |-> "Part", version |-> "0.1", description |-> "", author |-> "", units |-> "mm", tool |-> "yapCAD"]
E0 == [id |-> "e0", tags |-> <<"a", "b">>, mat |-> ""]
E1 == [id |-> "e1", tags |-> <<>>, mat |-> "AL"]
Fb == <<"f.bin">>
Ex == <<"exports", "m.step">>
Ops(s) ==
  { [k |-> "create", ents |-> e, c |-> Len(e), ow |-> TRUE, alg |-> a, mats |-> <<>>, meta |-> Meta]
      : e \in {<<E0>>, <<E1, E0>>}, a \in {"sha256", "sha512"} }
  \cup IF ~s.mem.has THEN {} ELSE
  { [k |-> "save"], [k |-> "load", str |-> TRUE], [k |-> "rehash", alg |-> "sha512"], [k |-> "geometry"],
    [k |-> "validate", strict |-> TRUE], [k |-> "write", p |-> PRIM, c |-> 0 - 1], [k |-> "write", p |-> Fb, c |-> 101],
    [k |-> "delete", p |-> Fb], [k |-> "noprim"],
    [k |-> "entry", sec |-> "exp", up |-> FALSE, e |-> [p |-> Ex, h |-> NoHash, x |-> X0]],
    [k |-> "write", p |-> Ex, c |-> 100] }
  \cup { [k |-> "add", c |-> 100, name |-> "f.bin", dest |-> d, cat |-> c, abs |-> FALSE, ow |-> o, x |-> X0]
           : d \in {Fb, <<"..", "f.bin">>}, c \in {"derived", "attachments"}, o \in BOOLEAN }
M == INSTANCE ModelBase WITH ApplyOp <- PkApply, InitSet <- {[paths |-> <<PRIM, Fb, Ex>>]}, InitState <- PkInit,
       OpsFor <- Ops
MInit == M!MInit
MNext == M!MNext
MView == <<st, Len(hist)>>
InvContained == Contained(st)
InvRehash == LawRehash(st)
InvTamper == LawTamper(st)
(* what the library itself writes agrees with what it records, as long as nobody else touches the files and no
   path is recorded twice *)
Lib == \A i \in 1..Len(hist) : hist[i].op.k \in {"create", "save", "load", "rehash", "geometry", "validate"}
InvLib == (Lib /\ st.disk.has) => Verdict(st.f, st.disk, TRUE).ok
====
