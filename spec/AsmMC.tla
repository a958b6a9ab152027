---- MODULE AsmMC ----
(* bounded model: two parts, quarter turns, constraints facing / radial / radius, mates *)
EXTENDS Asm, Json, IOUtils
CONSTANTS Depth
VARIABLES ini, st, hist, done
Def == [n |-> "D0", ds |-> << [n |-> "p", ty |-> "plane", o |-> <<3, 0, 1>>, v |-> <<1, 0, 0>>, w |-> Zero3, r |-> 0],
                              [n |-> "x", ty |-> "axis", o |-> <<0, 3, 0>>, v |-> <<0, 3, 4>>, w |-> Zero3, r |-> 0] >>]
Poses == { [R |-> RotM(a, d), t |-> t] : a \in {<<0, 0, 1>>, <<1, 0, 0>>}, d \in {0, 90, 180}, t \in {Zero3, <<0, 4, 0>>} }
Con(n, ty, part, d, dir) == [n |-> n, ty |-> ty, part |-> part, datum |-> d, ctr |-> Zero3, rad |-> 3, hasctr |-> TRUE, hasrad |-> TRUE,
                        dir |-> dir, axis |-> <<0, 0, 1>>, val |-> "none", tol |-> 35, mm |-> 1, sev |-> "error"]
Cons == { Con("f", "facing", "a", "p", "+x"), Con("g", "at_radius", "a", "p", ""), Con("r", "radial_from_center", "b", "p", "outward"),
          Con("u", "parallel_to", "b", "x", "") }
Ops(s) ==
  { [k |-> "part", n |-> n, def |-> "D0", pose |-> Id] : n \in {"a", "b"} }
  \cup { [k |-> "move", n |-> n, pose |-> p] : n \in {x \in {"a", "b"} : HasPart(s, x)}, p \in Poses }
  \cup { [k |-> "mate", n |-> "m", ty |-> t, p1 |-> "a", d1 |-> "p", p2 |-> "b", d2 |-> d] :
            t \in {"coincident", "parallel", "concentric", "revolute"}, d \in {"x", "none"} }
  \cup { [k |-> "con", c |-> c] : c \in {x \in Cons : ~Has(s.cons, x.n)} }
M == INSTANCE ModelBase WITH ApplyOp <- AApply, InitSet <- {[defs |-> <<Def>>]}, InitState <- AInit, OpsFor <- Ops
MInit == M!MInit
MNext == M!MNext
MView == <<st, Len(hist)>>
InvGood == AGood(st)
(* a refused operation changes nothing, and queries never do *)
Queries == { [k |-> x] : x \in {"validate", "demand", "report", "dof"} }
InvRefused == \A op \in Ops(st) \cup Queries :
   LET r == AApply(st, op) IN (op.k \in {"validate", "demand", "report", "dof"} \/ r.obs.res # "ok") => r.st = st
(* the three ways of asking for the verdict agree *)
InvVerdict == LET v == AApply(st, [k |-> "validate"]).obs.v
                  d == AApply(st, [k |-> "demand"]).obs
                  r == AApply(st, [k |-> "report"]).obs
              IN /\ v.valid = (d.res = "ok") /\ (r.status = "VALID") = v.valid /\ r.failed = v.failed
                 /\ \A i \in 1..Len(v.each) : ~v.each[i].p => \E j \in 1..Len(v.failed) : v.failed[j] = v.each[i].n
(* turning every part and the design frame together changes no radius or radial verdict; facing follows the turn *)
Turn == Rot(<<0, 0, 1>>, 90)
Turned == [st EXCEPT !.parts = [i \in 1..Len(@) |-> [@[i] EXCEPT !.pose = Comp(Turn, @)]]]
InvFrame == \A i \in 1..Len(st.cons) :
   LET c == st.cons[i] IN
   IF c.ty = "facing" THEN Holds(st, c) = Holds(Turned, [c EXCEPT !.dir = "+y"]) ELSE Holds(st, c) = Holds(Turned, c)
(* mates only ever take freedom away *)
InvDof == \A p \in {"a", "b"} : HasPart(st, p) =>
   /\ Dof(st, p) \in 0..6
   /\ \A op \in Ops(st) : op.k = "mate" => Dof(AApply(st, op).st, p) <= Dof(st, p)
====
