---- MODULE MetaMC ----
EXTENDS Meta, Json, IOUtils
CONSTANTS Depth
VARIABLES ini, st, hist, done
D(i, k) == << <<"id", S(i)>>, <<"kind", S(k)>> >>
L(x) == <<"l", x>>
Hints == {
  << <<"tags", L(<<S("a"), S("b")>>)>>, <<"custom", L(<< <<"i", "1">> >>)>> >>,
  << <<"assembly.datums", L(<<D("q", "axis")>>)>>, <<"layer", S("z")>>, <<"assembly.datums", L(<<D("q", "axis"), D("r", "plane")>>)>> >>,
  << <<"tags", S("a")>>, <<"operation.kind", S("subtract")>>, <<"operation.through", S("yes")>>, <<"operation.target_filter", S("a, b")>> >>,
  << <<"tags", S("c")>>, <<"assembly.joint_kind", S("revolute")>>, <<"layer", S("never")>> >> }
Helps == { <<"add_tags", << <<"tags", <<S("a"), S("x"), S("x")>>>> >> >>, <<"set_layer", << <<"layer", S("")>> >> >>,
  <<"add_datum", D("q", "axis")>>, <<"add_datum", D("q", "cone")>>,
  <<"set_operation", << <<"kind", S("union")>>, <<"priority", <<"i", "3">>>>, <<"target_filter", <<S("a")>>>> >> >>,
  <<"add_compliance", << <<"standards", <<S("ISO"), S("ISO")>>>> >> >>, <<"add_analysis_record", << <<"record", << <<"id", S("r")>> >> >> >> >> }
Ops(s) ==
  (IF Len(s.parts) > 2 THEN {} ELSE { [k |-> "new", kind |-> x, layer |-> y] : x \in {"solid", "surface"}, y \in {"-", "", "deep"} }
    \cup { [k |-> "dsl", chain |-> c, how |-> "call"] : c \in {<<h>> : h \in Hints} \cup { <<h, g>> : h \in Hints, g \in Hints } })
  \cup { [k |-> "get", i |-> i, create |-> c] : i \in 1..Len(s.parts), c \in BOOLEAN }
  \cup { [k |-> "help", i |-> i, name |-> h[1], kw |-> h[2]] : i \in 1..Len(s.parts), h \in Helps }
  \cup { [k |-> "hint", i |-> i, h |-> h, via |-> "part"] : i \in 1..Len(s.parts), h \in Hints }
  \cup (IF Len(s.parts) > 2 THEN {} ELSE { [k |-> "copy", i |-> i, via |-> "copy"] : i \in 1..Len(s.parts) })
  \cup { [k |-> "poke", i |-> i, p |-> p] : i \in 1..Len(s.parts), p \in {"custom", "tags", "assembly.datums"} }
  \cup (IF Len(s.files) > 1 THEN {} ELSE { [k |-> "dump", i |-> i, via |-> "dump", dsl |-> "none", cmd |-> "", name |-> "p.step"] : i \in 1..Len(s.parts) })
  \cup { [k |-> "load", f |-> f] : f \in 1..Len(s.files) }
M == INSTANCE ModelBase WITH ApplyOp <- MtApply, InitSet <- {0}, InitState <- MtInit, OpsFor <- Ops
MInit == M!MInit
MNext == M!MNext
MView == <<st, Len(hist)>>
Ms == 1..Len(st.parts)   \* (a set of parts would compare values of different kinds)
P(i) == st.parts[i]
(* hints are idempotent, tags stay distinct, valid helper values stay within their vocabularies *)
MtInvIdem == \A m \in Ms, h \in Hints : LET r == HintPart(P(m), h) IN r.err = "" => ToString(HintPart(r.m, h)) = ToString(r)
MtInvTags == \A m \in Ms : \A i, j \in 1..Len(List(P(m), "tags")) : i # j /\ List(P(m), "tags")[i] # S("poked") => List(P(m), "tags")[i] # List(P(m), "tags")[j]
MtInvVocab == \A m \in Ms : /\ P(m)["assembly.joint_kind"].has => P(m)["assembly.joint_kind"].v[2] \in JointKinds
                            /\ P(m)["operation.kind"].has => P(m)["operation.kind"].v[2] \in OpKinds
(* a part with anything recorded has the mandatory fields, except one given its dictionary *)
MtInvRoot == \A m \in Ms : P(m)["entityId"].has => P(m)["schema"].has /\ P(m)["tags"].has /\ P(m)["layer"].has /\ P(m)["layer"].v # S("") /\ P(m)["id"].has
====
