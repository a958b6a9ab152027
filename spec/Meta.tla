-------------------------------- MODULE Meta --------------------------------
(* Metadata of parts.  Each part has a dictionary of known paths; helpers and *)
(* decorator hints validate, convert and record values; copies, transformed   *)
(* parts, the hints themselves and sidecar files share nothing with a part.   *)
(* Values are pairs <<type, text>>, lists are sequences of them and entries   *)
(* are sequences of <<key, value>>.                                           *)
EXTENDS Integers, Sequences, TLC

PathSeq == << "schema", "entityId", "id", "tags", "layer",
  "material.name", "material.standard", "material.grade", "material.density_kg_m3", "material.source",
  "manufacturing.process", "manufacturing.instructions", "manufacturing.fixtures", "manufacturing.postprocessing",
  "designHistory.author", "designHistory.source", "designHistory.context", "designHistory.tools", "designHistory.iterations",
  "constraints.mass.max_kg", "constraints.mass.target_kg",
  "constraints.envelope.x_mm", "constraints.envelope.y_mm", "constraints.envelope.z_mm", "constraints.compliance",
  "analysis.simulations",
  "assembly.joint_kind", "assembly.no_cut", "assembly.bolt_patterns", "assembly.datums", "assembly.surfaces", "assembly.keepouts", "assembly.foo",
  "operation.kind", "operation.target_filter", "operation.priority", "operation.through", "operation.consume", "operation.policy",
  "operation.feature_id", "operation.feature_kind", "operation.stage", "operation.bar",
  "custom", "org.x" >>
Paths == { PathSeq[i] : i \in 1..Len(PathSeq) }

Absent == [has |-> FALSE, v |-> <<>>]
Has(v) == [has |-> TRUE, v |-> v]
Nothing == [p \in Paths |-> Absent]
Put(m, p, v) == [m EXCEPT ![p] = Has(v)]
S(x) == <<"s", x>>

(* --- conversions --- *)
Str(v) == S(v[2])
Flt(v) == <<"f", v[2]>>
Whole(v) == <<"i", v[2]>>
Trues == {"true", "True", "TRUE", "1", "yes", "Yes"}
BoolText(v) == <<"b", IF v[2] \in Trues THEN "true" ELSE "false">>            \* decorator strings
BoolPy(v) == IF v[1] = "b" THEN v ELSE <<"b", IF v[2] \in {"", "0"} THEN "false" ELSE "true">>

JointKinds == {"axial", "radial", "mixed", "none"}
Rings == {"axial", "radial"}
DatumKinds == {"bolt_circle", "axis", "plane", "point", "edge"}
SurfaceKinds == {"mating", "bearing", "sealing", "datum", "wear"}
KeepoutKinds == {"volume", "axis", "ring"}
OpKinds == {"subtract", "intersect", "union"}
Policies == {"strict", "warn", "ignore"}
FeatureKinds == {"access_panel", "vent", "parachute_door", "fastener_through", "wire_pass", "channel", "pocket", "other"}
Threads == {"tap", "clearance", "heat-set", "through"}
Heads == {"SHCS", "FHCS", "BHCS", "hex", "stud", "none"}

(* --- keyword arguments: sequences of <<key, value>> --- *)
Keys(kw) == { kw[i][1] : i \in 1..Len(kw) }
Arg(kw, k) == kw[CHOOSE i \in 1..Len(kw) : kw[i][1] = k][2]
Given(kw, k) == k \in Keys(kw)
Opt(kw, k, v) == IF Given(kw, k) THEN <<<<k, v>>>> ELSE <<>>
TextOf(kw, k) == Arg(kw, k)[2]
In(kw, k, S0) == ~Given(kw, k) \/ TextOf(kw, k) \in S0
PutIf(m, kw, k, p, v) == IF Given(kw, k) THEN Put(m, p, v) ELSE m

RECURSIVE AddAll(_, _)
AddAll(seq, xs) == IF xs = <<>> THEN seq
                   ELSE LET x == Head(xs) IN
                        AddAll(IF x[2] = "" \/ \E i \in 1..Len(seq) : seq[i] = x THEN seq ELSE Append(seq, x), Tail(xs))
List(m, p) == IF m[p].has THEN m[p].v ELSE <<>>
Strs(xs) == [i \in 1..Len(xs) |-> Str(xs[i])]

Root(m) ==
  LET a == IF m["schema"].has THEN m ELSE Put(m, "schema", S("metadata-namespace-v1.1"))
      b == IF a["tags"].has THEN a ELSE Put(a, "tags", <<>>)
  IN IF b["layer"].has /\ b["layer"].v # S("") THEN b ELSE Put(b, "layer", S("default"))
Named(m) == LET a == IF m["entityId"].has THEN m ELSE Put(m, "entityId", S("set"))
            IN IF a["id"].has THEN a ELSE Put(a, "id", a["entityId"].v)

(* --- entries of the assembly lists; TypeErrors are unknown or missing keys --- *)
Fastener(v) == Opt(v, "designation", Str(Arg(v, "designation"))) \o Opt(v, "thread", Arg(v, "thread")) \o Opt(v, "head", Arg(v, "head"))
Entry(field, kw) ==
  CASE field = "bolt_patterns" ->
       IF ~(Keys(kw) \subseteq {"id", "ring", "R_mm", "z_mm", "count", "theta0_deg", "fastener", "tolerance_mm"})
          \/ ~({"id", "ring", "R_mm", "z_mm", "count"} \subseteq Keys(kw)) THEN [err |-> "exc:TypeError"]
       ELSE IF TextOf(kw, "id") = "" \/ ~In(kw, "ring", Rings) THEN [err |-> "exc:ValueError"]
       ELSE IF Given(kw, "fastener") /\ ~(In(Arg(kw, "fastener"), "thread", Threads) /\ In(Arg(kw, "fastener"), "head", Heads)) THEN [err |-> "exc:ValueError"]
       ELSE [err |-> "", e |-> << <<"id", Str(Arg(kw, "id"))>>, <<"ring", Arg(kw, "ring")>>, <<"R_mm", Flt(Arg(kw, "R_mm"))>>,
                                  <<"z_mm", Flt(Arg(kw, "z_mm"))>>, <<"count", Whole(Arg(kw, "count"))>> >>
             \o Opt(kw, "theta0_deg", Flt(Arg(kw, "theta0_deg"))) \o Opt(kw, "fastener", Fastener(Arg(kw, "fastener")))
             \o Opt(kw, "tolerance_mm", Flt(Arg(kw, "tolerance_mm")))]
  [] field = "datums" ->
       IF ~(Keys(kw) \subseteq {"id", "kind", "ring", "R_mm", "z_mm", "origin_mm", "direction"}) \/ ~({"id", "kind"} \subseteq Keys(kw)) THEN [err |-> "exc:TypeError"]
       ELSE IF TextOf(kw, "id") = "" \/ ~In(kw, "kind", DatumKinds) \/ ~In(kw, "ring", Rings)
               \/ (Given(kw, "origin_mm") /\ Len(Arg(kw, "origin_mm")) # 3) \/ (Given(kw, "direction") /\ Len(Arg(kw, "direction")) # 3)
       THEN [err |-> "exc:ValueError"]
       ELSE [err |-> "", e |-> << <<"id", Str(Arg(kw, "id"))>>, <<"kind", Arg(kw, "kind")>> >>
             \o Opt(kw, "ring", Arg(kw, "ring")) \o Opt(kw, "R_mm", Flt(Arg(kw, "R_mm"))) \o Opt(kw, "z_mm", Flt(Arg(kw, "z_mm")))
             \o Opt(kw, "origin_mm", [i \in 1..3 |-> Flt(Arg(kw, "origin_mm")[i])])
             \o Opt(kw, "direction", [i \in 1..3 |-> Flt(Arg(kw, "direction")[i])])]
  [] field = "surfaces" ->
       IF ~(Keys(kw) \subseteq {"id", "kind", "mate_to", "finish", "tolerance_mm"}) \/ ~({"id", "kind"} \subseteq Keys(kw)) THEN [err |-> "exc:TypeError"]
       ELSE IF TextOf(kw, "id") = "" \/ ~In(kw, "kind", SurfaceKinds) THEN [err |-> "exc:ValueError"]
       ELSE [err |-> "", e |-> << <<"id", Str(Arg(kw, "id"))>>, <<"kind", Arg(kw, "kind")>> >> \o Opt(kw, "mate_to", Str(Arg(kw, "mate_to")))
             \o Opt(kw, "finish", Str(Arg(kw, "finish"))) \o Opt(kw, "tolerance_mm", Flt(Arg(kw, "tolerance_mm")))]
  [] field = "keepouts" ->
       IF ~(Keys(kw) \subseteq {"id", "kind", "reason"}) \/ ~({"id", "kind"} \subseteq Keys(kw)) THEN [err |-> "exc:TypeError"]
       ELSE IF TextOf(kw, "id") = "" \/ ~In(kw, "kind", KeepoutKinds) THEN [err |-> "exc:ValueError"]
       ELSE [err |-> "", e |-> << <<"id", Str(Arg(kw, "id"))>>, <<"kind", Arg(kw, "kind")>> >> \o Opt(kw, "reason", Str(Arg(kw, "reason")))]
ListFields == {"bolt_patterns", "datums", "surfaces", "keepouts"}

Good(m) == [m |-> m, err |-> ""]
Bad(m, e) == [m |-> m, err |-> e]

(* --- the operation namespace --- *)
OperationOk(kw) == In(kw, "kind", OpKinds) /\ In(kw, "policy", Policies) /\ In(kw, "feature_kind", FeatureKinds)
OperationPut(m, kw, B(_)) ==
  LET a == PutIf(m, kw, "kind", "operation.kind", Arg(kw, "kind"))
      b == PutIf(a, kw, "target_filter", "operation.target_filter", Strs(Arg(kw, "target_filter")))
      c == PutIf(b, kw, "priority", "operation.priority", Flt(Arg(kw, "priority")))
      d == PutIf(c, kw, "through", "operation.through", B(Arg(kw, "through")))
      e == PutIf(d, kw, "consume", "operation.consume", B(Arg(kw, "consume")))
      f == PutIf(e, kw, "policy", "operation.policy", Arg(kw, "policy"))
      g == PutIf(f, kw, "feature_id", "operation.feature_id", Str(Arg(kw, "feature_id")))
      h == PutIf(g, kw, "feature_kind", "operation.feature_kind", Arg(kw, "feature_kind"))
  IN PutIf(h, kw, "stage", "operation.stage", Str(Arg(kw, "stage")))

(* --- the helpers --- *)
Helper(m0, name, kw) ==
  LET m == Root(m0) IN
  CASE name = "set_layer" -> Good(Put(m, "layer", IF TextOf(kw, "layer") = "" THEN S("default") ELSE Arg(kw, "layer")))
  [] name = "add_tags" -> Good(Put(m, "tags", AddAll(List(m, "tags"), Arg(kw, "tags"))))
  [] name = "set_material" ->
       LET a == PutIf(m, kw, "name", "material.name", Arg(kw, "name"))
           b == PutIf(a, kw, "standard", "material.standard", Arg(kw, "standard"))
           c == PutIf(b, kw, "grade", "material.grade", Arg(kw, "grade"))
           d == PutIf(c, kw, "density_kg_m3", "material.density_kg_m3", Flt(Arg(kw, "density_kg_m3")))
       IN Good(PutIf(d, kw, "source", "material.source", Arg(kw, "source")))
  [] name = "set_manufacturing" ->
       LET a == PutIf(m, kw, "process", "manufacturing.process", Arg(kw, "process"))
           b == PutIf(a, kw, "instructions", "manufacturing.instructions", Arg(kw, "instructions"))
           c == PutIf(b, kw, "fixtures", "manufacturing.fixtures", Arg(kw, "fixtures"))
       IN Good(PutIf(c, kw, "postprocessing", "manufacturing.postprocessing", Arg(kw, "postprocessing")))
  [] name = "add_design_history_entry" ->
       LET a == PutIf(m, kw, "author", "designHistory.author", Arg(kw, "author"))
           b == PutIf(a, kw, "source", "designHistory.source", Arg(kw, "source"))
           c == PutIf(b, kw, "context", "designHistory.context", Arg(kw, "context"))
           d == PutIf(c, kw, "tools", "designHistory.tools", Arg(kw, "tools"))
           e == Opt(kw, "revision", Arg(kw, "revision")) \o Opt(kw, "timestamp", Arg(kw, "timestamp")) \o Opt(kw, "notes", Arg(kw, "notes"))
       IN Good(Put(d, "designHistory.iterations", List(d, "designHistory.iterations") \o (IF e = <<>> THEN <<>> ELSE <<e>>)))
  [] name = "set_mass_constraint" ->
       Good(PutIf(PutIf(m, kw, "max_kg", "constraints.mass.max_kg", Flt(Arg(kw, "max_kg"))), kw, "target_kg", "constraints.mass.target_kg", Flt(Arg(kw, "target_kg"))))
  [] name = "set_envelope_constraint" ->
       LET a == PutIf(m, kw, "x_mm", "constraints.envelope.x_mm", Flt(Arg(kw, "x_mm")))
           b == PutIf(a, kw, "y_mm", "constraints.envelope.y_mm", Flt(Arg(kw, "y_mm")))
       IN Good(PutIf(b, kw, "z_mm", "constraints.envelope.z_mm", Flt(Arg(kw, "z_mm"))))
  [] name = "add_compliance" -> Good(Put(m, "constraints.compliance", AddAll(List(m, "constraints.compliance"), Arg(kw, "standards"))))
  [] name = "add_analysis_record" -> Good(Put(m, "analysis.simulations", Append(List(m, "analysis.simulations"), Arg(kw, "record"))))
  [] name = "set_assembly" ->
       IF ~In(kw, "joint_kind", JointKinds) THEN Bad(m0, "exc:ValueError")
       ELSE Good(PutIf(PutIf(m, kw, "joint_kind", "assembly.joint_kind", Arg(kw, "joint_kind")), kw, "no_cut", "assembly.no_cut", BoolPy(Arg(kw, "no_cut"))))
  [] name \in {"add_bolt_pattern", "add_datum", "add_surface", "add_keepout"} ->
       LET f == CASE name = "add_bolt_pattern" -> "bolt_patterns" [] name = "add_datum" -> "datums" [] name = "add_surface" -> "surfaces" [] OTHER -> "keepouts"
           r == Entry(f, kw)
       IN IF r.err # "" THEN Bad(m0, r.err) ELSE Good(Put(m, "assembly." \o f, Append(List(m, "assembly." \o f), r.e)))
  [] name = "set_operation" ->
       IF ~Given(kw, "kind") THEN Bad(m0, "exc:TypeError")
       ELSE IF ~OperationOk(kw) THEN Bad(m0, "exc:ValueError")
       ELSE Good(OperationPut(m, kw, BoolPy))

(* --- decorator hints: sequences of <<path, value>> --- *)
SplitFilter(v) == IF v[1] = "l" THEN Strs(v[2])
                  ELSE IF v = S("a, b") THEN <<S("a"), S("b")>> ELSE IF v[2] \in {"", " "} THEN <<>> ELSE <<Str(v)>>
RECURSIVE AddEntries(_, _, _)
AddEntries(m, f, kws) ==
  IF kws = <<>> THEN Good(m)
  ELSE LET r == Entry(f, Head(kws))
           p == "assembly." \o f
           old == List(m, p)
       IN IF r.err # "" THEN Bad(m, r.err)
          ELSE AddEntries(Put(m, p, IF \E i \in 1..Len(old) : ToString(old[i]) = ToString(r.e) THEN old ELSE Append(old, r.e)), f, Tail(kws))
Hint1(m, k, v) ==
  CASE k = "layer" -> Good(Put(m, "layer", Str(v)))
  [] k = "tags" -> Good(Put(m, "tags", AddAll(List(m, "tags"), IF v[1] = "l" THEN Strs(v[2]) ELSE <<Str(v)>>)))
  [] k = "assembly.joint_kind" -> IF v[2] \in JointKinds THEN Good(Put(m, k, v)) ELSE Bad(m, "exc:ValueError")
  [] k = "assembly.no_cut" -> Good(Put(m, k, IF v[1] = "s" THEN BoolText(v) ELSE BoolPy(v)))
  [] k \in {"assembly." \o f : f \in ListFields} ->
       LET f == CHOOSE g \in ListFields : k = "assembly." \o g IN
       IF v[1] # "l" THEN Bad(m, "exc:TypeError") ELSE AddEntries(m, f, v[2])
  [] k = "operation.kind" -> IF v[2] \in OpKinds THEN Good(Put(m, k, v)) ELSE Bad(m, "exc:ValueError")
  [] k = "operation.policy" -> IF v[2] \in Policies THEN Good(Put(m, k, v)) ELSE Bad(m, "exc:ValueError")
  [] k = "operation.feature_kind" -> IF v[2] \in FeatureKinds THEN Good(Put(m, k, v)) ELSE Bad(m, "exc:ValueError")
  [] k \in {"operation.through", "operation.consume"} -> Good(Put(m, k, IF v[1] = "s" THEN BoolText(v) ELSE BoolPy(v)))
  [] k = "operation.priority" -> Good(Put(m, k, Flt(v)))
  [] k \in {"operation.feature_id", "operation.stage"} -> Good(Put(m, k, Str(v)))
  [] k = "operation.target_filter" -> Good(Put(m, k, SplitFilter(v)))
  [] OTHER -> Good(Put(m, k, IF v[1] = "l" THEN v[2] ELSE v))
RECURSIVE HintAll(_, _)
HintAll(m, h) == IF h = <<>> THEN Good(m)
                 ELSE LET r == Hint1(m, Head(h)[1], Head(h)[2]) IN IF r.err # "" THEN r ELSE HintAll(r.m, Tail(h))
(* several decorators: the first mention fixes the place, the last one the value *)
RECURSIVE Merge(_, _)
Merge(acc, h) == IF h = <<>> THEN acc
                 ELSE LET k == Head(h)[1]
                          at == { i \in 1..Len(acc) : acc[i][1] = k }
                      IN Merge(IF at = {} THEN Append(acc, Head(h)) ELSE [i \in 1..Len(acc) |-> IF i \in at THEN Head(h) ELSE acc[i]], Tail(h))
HintPart(m, h) == HintAll(Named(Root(m)), Merge(<<>>, h))
RECURSIVE Chain(_, _)
Chain(m, hs) == IF hs = <<>> THEN Good(m)
                ELSE LET r == IF Head(hs) = <<>> THEN Good(m) ELSE HintPart(m, Head(hs)) IN IF r.err # "" THEN r ELSE Chain(r.m, Tail(hs))

(* --- parts and sidecars --- *)
MtInit(i) == [parts |-> <<>>, files |-> <<>>]
Show(m) == LET ps == SelectSeq(PathSeq, LAMBDA p : m[p].has) IN [i \in 1..Len(ps) |-> <<ps[i], m[ps[i]].v>>]
All(st) == [i \in 1..Len(st.parts) |-> Show(st.parts[i])]
Obs(st, res) == [res |-> res, all |-> All(st)]
Upd(st, i, r) == LET n == [st EXCEPT !.parts[i] = r.m] IN [st |-> n, obs |-> Obs(n, IF r.err = "" THEN "ok" ELSE r.err)]
Pokable == {"custom", "assembly.foo", "tags", "operation.target_filter", "assembly.datums"}

MtApply(st, op) ==
  CASE op.k = "new" ->
       LET m == IF op.layer = "-" THEN Nothing ELSE Put(Nothing, "layer", S(op.layer))
           n == [st EXCEPT !.parts = Append(@, m)] IN [st |-> n, obs |-> Obs(n, "ok")]
  [] op.k = "get" ->
       LET m == Root(st.parts[op.i]) IN Upd(st, op.i, Good(IF op.create THEN Named(m) ELSE m))
  [] op.k = "help" -> Upd(st, op.i, Helper(Named(Root(st.parts[op.i])), op.name, op.kw))
  [] op.k = "hint" -> Upd(st, op.i, HintPart(st.parts[op.i], op.h))
  [] op.k = "copy" -> LET n == [st EXCEPT !.parts = Append(@, st.parts[op.i])] IN [st |-> n, obs |-> Obs(n, "ok")]
  [] op.k = "poke" ->                     \* change a list in place through the dictionary of part i
       LET m == st.parts[op.i] IN
       IF ~m[op.p].has THEN [st |-> st, obs |-> Obs(st, "ok")]
       ELSE Upd(st, op.i, Good(Put(m, op.p, m[op.p].v \o <<S("poked")>>)))
  [] op.k = "dsl" ->
       LET r == Chain(Nothing, op.chain) IN
       IF r.err # "" THEN [st |-> st, obs |-> Obs(st, "failed")]
       ELSE LET n == [st EXCEPT !.parts = Append(@, r.m)] IN [st |-> n, obs |-> Obs(n, "ok")]
  [] op.k = "dump" ->
       LET m == st.parts[op.i] IN
       IF \A p \in Paths : ~m[p].has
       THEN [st |-> st, obs |-> [res |-> "none", all |-> All(st), file |-> FALSE]]
       ELSE LET n == [st EXCEPT !.files = Append(@, m)]
            IN [st |-> n, obs |-> [res |-> "ok", all |-> All(st), file |-> TRUE, path |-> TRUE,
                                  prov |-> [dsl |-> op.dsl # "none", sha |-> CASE op.dsl = "file" -> "dsl" [] op.dsl = "none" -> "geometry" [] OTHER -> "none", cmd |-> op.cmd]]]
  [] op.k = "load" ->
       [st |-> st, obs |-> [res |-> "ok", all |-> All(st), data |-> Show(st.files[op.f])]]
=============================================================================
