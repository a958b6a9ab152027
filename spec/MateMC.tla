---- MODULE MateMC ----
(* bounded model: two parts whose datums are replaced, mates solved again and again with and without cache *)
EXTENDS Mate, Json, IOUtils
CONSTANTS Depth
VARIABLES ini, st, hist, done
D(ty, o, v) == [n |-> "d0", ty |-> ty, o |-> o, v |-> v, w |-> Zero3, r |-> IF ty = "circle" THEN 3 ELSE 0]
DsA == { D("plane", <<1, 2, 3>>, <<0, 0, 1>>), D("axis", <<0, 5, 0>>, <<3, 0, 4>>), D("circle", <<2, 0, -1>>, <<-1, 0, 0>>) }
DsB == { D("plane", <<0, 0, 4>>, <<1, 2, 2>>), D("axis", <<1, 0, 0>>, <<0, -1, 0>>) }
Poses == { Id, [R |-> RotM(<<0, 0, 1>>, 90), t |-> <<0, 4, 0>>], [R |-> RotM(<<1, 0, 0>>, 180), t |-> <<-1, 0, 2>>] }
Mt(n, ty, off) == [n |-> n, ty |-> ty, pa |-> "a", da |-> "d0", pb |-> "b", db |-> "d0", off |-> off, ang |-> 90]
Ms == { Mt("m1", "coincident", 2), Mt("m2", "concentric", 0), Mt("m3", "distance", 5), Mt("m4", "angle", 0), Mt("m5", "perpendicular", 0),
        Mt("m6", "planar", 0) }
Fs == { [ty |-> t, pa |-> "a", da |-> "d0", pb |-> "b", db |-> "d0", off |-> o, rot |-> r] :
          t \in {"coincident", "concentric", "parallel", "angle"}, o \in {0, 3}, r \in {0, 90} }
Ops(s) ==
  { [k |-> "source", n |-> "a", ds |-> <<d>>, how |-> "part"] : d \in DsA }
  \cup { [k |-> "source", n |-> "b", ds |-> <<d>>, how |-> "source"] : d \in DsB }
  \cup { [k |-> "solve", m |-> m, pose |-> p, ax |-> a] : m \in Ms, p \in Poses, a \in {"Z", "-X"} }
  \cup { [k |-> "chain", ms |-> <<m>>, pose |-> p] : m \in Ms, p \in Poses }
  \cup { [k |-> "forget", n |-> n] : n \in {"", "m1"} }
  \cup (IF Has(s.fm, "f") THEN { [k |-> "fplace", n |-> "f", pose |-> p] : p \in Poses } \cup { [k |-> x, n |-> "f"] : x \in {"fcheck", "fforget"} }
        ELSE { [k |-> "fmake", n |-> "f", f |-> f] : f \in Fs })
  \cup { [k |-> "frame", n |-> "F", p |-> "a", d |-> "d0", ty |-> LET x == IF Has(s.fr, "F") THEN Get(s.fr, "F").got ELSE NoDat
                 IN IF x.ty # "none" THEN x.ty ELSE IF HasSD(s, "a", "d0") THEN SD(s, "a", "d0").ty ELSE "none"] }
  \cup { [k |-> "reframe", n |-> "F"] }
M == INSTANCE ModelBase WITH ApplyOp <- TApply, InitSet <- {[cached |-> TRUE], [cached |-> FALSE]}, InitState <- TInit0, OpsFor <- Ops
MInit == M!MInit
MNext == M!MNext
MView == <<st, Len(hist)>>
Both == HasSD(st, "a", "d0") /\ HasSD(st, "b", "d0")
(* where the parent stands moves the placement rigidly and changes nothing else *)
InvCarry == Both => \A m \in Ms : m.ty \in {"coincident", "parallel"} => \A p \in Poses :
   LET A == SD(st, "a", "d0") B == SD(st, "b", "d0") f == Feat(m, A, B, Id) g == Feat(m, A, B, p)
   IN IF m.ty = "parallel" THEN g = << WDir(p, f[1]) >> ELSE g = << WPt(p, f[1]), WDir(p, f[2]) >>
(* a solved coincident mate without offset is coincident, face to face *)
InvTouch == Both => LET A == SD(st, "a", "d0") f == Feat(Mt("x", "coincident", 0), A, SD(st, "b", "d0"), Id) IN
   /\ f[1] = VScale(105, A.o) /\ Dot(f[2], A.v) = -105 * Len3(A.v)
(* an answer that is judged never depends on what was asked before *)
InvFresh == \A m \in Ms : \A p \in Poses : ~Unsure(st, m, "Z") =>
   TApply(st, [k |-> "solve", m |-> m, pose |-> p, ax |-> "Z"]).obs.a = TApply([st EXCEPT !.solved = <<>>], [k |-> "solve", m |-> m, pose |-> p, ax |-> "Z"]).obs.a
InvForget == \A m \in Ms : ~Unsure(TApply(st, [k |-> "forget", n |-> ""]).st, m, "Z")
(* the kinds of mates agree: solver and face mate place alike *)
InvAgree == Both => \A p \in Poses : \A o \in {0, 3} :
   LET A == SD(st, "a", "d0") B == SD(st, "b", "d0")
       f == FFeat([ty |-> "coincident", off |-> o, rot |-> 0], A, B, p) g == Feat(Mt("x", "coincident", o), A, B, p)
   IN f[1] = g[1] /\ f[2] = g[2]
(* coincidence of datums is symmetric *)
InvSym == Both => LET A == SD(st, "a", "d0") B == SD(st, "b", "d0") IN Judged(A, B) => Coincide(A, B, 1) = Coincide(B, A, 1)
====
