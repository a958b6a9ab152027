-------------------------------- MODULE Kin --------------------------------
(* Kinematic chain: a tree of parts hanging from a world datum through        *)
(* joints, with a world-transform cache.  The state keeps the cache the       *)
(* implementation keeps, so the coherence of cache and tree is an invariant   *)
(* of the model, not an assumption.                                           *)
EXTENDS Lin, FiniteSets

DATUM == "GLOBAL_DATUM"
NoFrames == <<>>

KInit(i) == [order |-> <<>>, parts |-> <<>>, cache |-> <<>>]

Names(st) == { st.order[i] : i \in 1..Len(st.order) }
Known(st, n) == n = DATUM \/ n \in Names(st)
P(st, n) == st.parts[n]
HasFrame(st, n, f) == f = "ORIGIN" \/
   (n # DATUM /\ \E i \in 1..Len(P(st, n).frames) : P(st, n).frames[i].n = f)
\* a part may carry its own definition of ORIGIN, but the world placement of a
\* part is that of its origin, so the name ORIGIN always denotes the part itself
FrameTf(st, n, f) ==
  IF f = "ORIGIN" \/ ~HasFrame(st, n, f) THEN Id
  ELSE P(st, n).frames[CHOOSE i \in 1..Len(P(st, n).frames) : P(st, n).frames[i].n = f].tf

JointTf(p) ==
  CASE p.jt = "revolute"    -> Comp(p.base, Rot(p.axis, p.val))
    [] p.jt = "cylindrical" -> Comp(p.base, Rot(p.axis, p.val))
    [] p.jt = "prismatic"   -> Comp(p.base, Slide(p.axis, p.val))
    [] OTHER                -> p.base          \* fixed, spherical

(* definition of the world placement *)
RECURSIVE World(_, _)
World(st, n) ==
  IF n = DATUM THEN Id
  ELSE LET p == P(st, n)
       IN Comp(Comp(World(st, p.parent), FrameTf(st, p.parent, p.pframe)), JointTf(p))
WorldF(st, n, f) == Comp(World(st, n), FrameTf(st, n, f))

RECURSIVE ToRoot(_, _)
ToRoot(st, n) == IF n = DATUM THEN <<DATUM>> ELSE <<n>> \o ToRoot(st, P(st, n).parent)

Children(st, n) == SelectSeq(st.order, LAMBDA m : P(st, m).parent = n)
RECURSIVE Desc(_, _)
Desc(st, n) ==
  LET ch == Children(st, n)
      RECURSIVE Go(_)
      Go(i) == IF i > Len(ch) THEN <<>> ELSE <<ch[i]>> \o Desc(st, ch[i]) \o Go(i + 1)
  IN Go(1)
InSub(st, m, n) == \E i \in 1..Len(ToRoot(st, m)) : ToRoot(st, m)[i] = n

(* cache: a query fills the entries on the path to the root *)
Fill(st, n) ==
  LET path == { ToRoot(st, n)[i] : i \in 1..Len(ToRoot(st, n)) } \ {DATUM}
      RECURSIVE Val(_)
      Val(m) == IF m = DATUM THEN Id
                ELSE IF m \in DOMAIN st.cache THEN st.cache[m]
                ELSE LET p == P(st, m)
                     IN Comp(Comp(Val(p.parent), FrameTf(st, p.parent, p.pframe)), JointTf(p))
  IN [m \in path \cup DOMAIN st.cache |-> Val(m)]
CW(st, n) == IF n = DATUM THEN Id ELSE Fill(st, n)[n]
CWF(st, n, f) == Comp(CW(st, n), FrameTf(st, n, f))
FillAll(st) == [m \in Names(st) |-> CW(st, m)]
FillNone(st, n) == IF n = DATUM THEN st.cache ELSE Fill(st, n)

Clamp(p, v) == Max(p.lo, Min(p.hi, v))
Tf(A) == [res |-> "ok", R |-> A.R, t |-> A.t]
Err == [res |-> "err"]

PartOf(op, pf) == [parent |-> IF op.parent = "" THEN DATUM ELSE op.parent, pframe |-> pf,
                   jt |-> op.jt, axis |-> op.axis, base |-> op.base, val |-> op.val,
                   lo |-> op.lo, hi |-> op.hi, frames |-> op.frames]

(* add one part record; no effect when the name is taken or the parent unknown *)
CanAdd(st, op) == ~Known(st, op.name) /\ (op.parent = "" \/ Known(st, op.parent))
AddTo(st, op) ==
  LET par == IF op.parent = "" THEN DATUM ELSE op.parent
      pf  == IF HasFrame(st, par, op.pframe) THEN op.pframe ELSE "ORIGIN"
  IN [st EXCEPT !.order = Append(@, op.name),
                !.parts = (op.name :> PartOf(op, pf)) @@ @]

(* loading a document: parts in any order; succeeds iff every part reaches the *)
(* datum through parts of the document                                        *)
RECURSIVE Load(_, _)
Load(st, rest) ==
  IF rest = <<>> THEN [ok |-> TRUE, st |-> st]
  ELSE LET ready == SelectSeq(rest, LAMBDA o : CanAdd(st, o))
       IN IF ready = <<>> THEN [ok |-> FALSE, st |-> st]
          ELSE LET o == ready[1]
               IN Load(AddTo(st, o), SelectSeq(rest, LAMBDA x : x # o))

Describe(st, n) == LET p == P(st, n) IN
   [name |-> n, parent |-> p.parent, pframe |-> p.pframe, jt |-> p.jt, axis |-> p.axis,
    base |-> p.base, val |-> p.val, lo |-> p.lo, hi |-> p.hi,
    frames |-> p.frames, R |-> CW(st, n).R, t |-> CW(st, n).t]

KApply(st, op) ==
  CASE op.k = "add" ->
        IF ~CanAdd(st, op) THEN [st |-> st, obs |-> Err]
        ELSE LET s2 == AddTo(st, op)
             IN [st |-> s2, obs |-> [res |-> "ok", parent |-> P(s2, op.name).parent,
                                     pframe |-> P(s2, op.name).pframe]]
    [] op.k = "set" ->
        IF op.name = DATUM \/ ~Known(st, op.name) THEN [st |-> st, obs |-> Err]
        ELSE LET p == P(st, op.name)
                 v == IF op.clamp THEN Clamp(p, op.val) ELSE op.val
                 s2 == [st EXCEPT !.parts[op.name].val = v]
                 keep == { m \in DOMAIN st.cache : ~InSub(st, m, op.name) }
             IN [st |-> [s2 EXCEPT !.cache = [m \in keep |-> st.cache[m]]],
                 obs |-> [res |-> "ok", val |-> v]]
    [] op.k = "get" ->
        IF op.name = DATUM \/ ~Known(st, op.name) THEN [st |-> st, obs |-> Err]
        ELSE [st |-> st, obs |-> [res |-> "ok", val |-> P(st, op.name).val]]
    [] op.k = "world" ->
        IF ~Known(st, op.name) THEN [st |-> st, obs |-> Err]
        ELSE [st |-> [st EXCEPT !.cache = FillNone(st, op.name)], obs |-> Tf(CWF(st, op.name, op.frame))]
    [] op.k = "rel" ->
        IF ~Known(st, op.a) \/ ~Known(st, op.b) THEN [st |-> st, obs |-> Err]
        ELSE LET s2 == [st EXCEPT !.cache = FillNone(st, op.a)]
             IN [st |-> [s2 EXCEPT !.cache = FillNone(s2, op.b)],
                 obs |-> Tf(Comp(Inv(CWF(st, op.a, op.fa)), CWF(st, op.b, op.fb)))]
    [] op.k = "all" ->
        [st |-> [st EXCEPT !.cache = FillAll(st)],
         obs |-> [res |-> "ok", tfs |-> [i \in 1..Len(st.order) |-> CW(st, st.order[i])]]]
    [] op.k = "tree" ->
        [st |-> st,
         obs |-> [res |-> IF Known(st, op.name) THEN "ok" ELSE "none",
                  root |-> IF Known(st, op.name) THEN ToRoot(st, op.name) ELSE <<>>,
                  kids |-> IF Known(st, op.name) THEN Children(st, op.name) ELSE <<>>,
                  desc |-> IF Known(st, op.name) THEN Desc(st, op.name) ELSE <<>>,
                  issues |-> 0]]
    [] op.k = "frame" ->       \* a new frame on an existing part
        IF op.name = DATUM \/ ~Known(st, op.name) \/ HasFrame(st, op.name, op.frame)
        THEN [st |-> st, obs |-> [res |-> "skip"]]
        ELSE [st |-> [st EXCEPT !.parts[op.name].frames = Append(@, [n |-> op.frame, tf |-> op.tf])],
              obs |-> [res |-> "ok"]]
    [] op.k = "roundtrip" ->   \* save, reload (optionally shuffled), keep working on the copy
        [st |-> [st EXCEPT !.cache = <<>>],
         obs |-> [res |-> "ok", n |-> Len(st.order)]]
    [] op.k = "describe" ->
        [st |-> [st EXCEPT !.cache = FillAll(st)],
         obs |-> [res |-> "ok", parts |-> [i \in 1..Len(st.order) |-> Describe(st, st.order[i])]]]
    [] op.k = "load" ->        \* replace the chain by an externally written document
        LET r == Load(KInit(0), op.parts)
        IN IF r.ok THEN [st |-> [r.st EXCEPT !.order = op.names], obs |-> [res |-> "ok", n |-> Len(r.st.order)]]
           ELSE [st |-> st, obs |-> Err]
    [] op.k = "damage" ->      \* a part made to name a missing parent or frame, or a descendant as its parent, and put right again
        IF op.name = DATUM \/ ~Known(st, op.name) \/ (op.how = "cycle" /\ ~(Known(st, op.by) /\ InSub(st, op.by, op.name)))
        THEN [st |-> st, obs |-> [res |-> "skip"]]
        ELSE [st |-> st, obs |-> [res |-> "ok", found |-> TRUE, named |-> TRUE, after |-> 0]]
    [] op.k = "euler" ->       \* Euler angles read back denote the same rotation
        LET A == Comp(Trans(op.t), Euler(op.rx, op.ry, op.rz))
        IN [st |-> st, obs |-> [res |-> "ok", R |-> A.R, t |-> A.t, R2 |-> A.R, t2 |-> A.t,
                                back |-> I3, p |-> Act(A, op.p), v |-> MV(A.R, op.p)]]

(* ------------------------------------------------------------ invariants *)
CacheCoherent(st) == \A m \in DOMAIN st.cache : st.cache[m] = World(st, m)
TreeOk(st) == \A m \in Names(st) :
                 LET r == ToRoot(st, m) IN r[Len(r)] = DATUM /\ Len(r) <= Len(st.order) + 1
Rigid(st) == \A m \in Names(st) : Proper(World(st, m))
RelId(st) == \A m \in Names(st) : Comp(Inv(World(st, m)), World(st, m)) = Id
FramesOk(st) == \A m \in Names(st) : HasFrame(st, P(st, m).parent, P(st, m).pframe)
ChildrenOk(st) == \A m \in Names(st) : \E i \in 1..Len(Children(st, P(st, m).parent)) :
                                           Children(st, P(st, m).parent)[i] = m
KGood(st) == CacheCoherent(st)
=============================================================================
