---- MODULE PathMC ----
EXTENDS Path, Json, IOUtils
CONSTANTS Depth
VARIABLES ini, st, hist, done
L(w) == [k |-> "line", w |-> w]
A(w) == [k |-> "arc", w |-> w]
Inits == { [w |-> w, seed |-> 1] : w \in { <<L(5)>>, <<A(6)>>, <<L(3), L(8)>>, <<L(2), A(4)>>, <<A(3), L(1), A(2)>> } }
Spots(p) == { [i |-> i, j |-> j] : i \in 1..Len(p), j \in 0..3 } \cup { [i |-> Len(p), j |-> 4] }
Some == 1..Len(st.ps)
Ops(s) ==
  UNION { LET p == s.ps[x] S == Spots(p) IN
     { [k |-> "eval", p |-> x, i |-> a.i, j |-> a.j] : a \in S } \cup { [k |-> "len", p |-> x] }
     \cup { [k |-> "sub", p |-> x, i |-> a.i, j |-> a.j, m |-> b.i, l |-> b.j] : a \in S, b \in S }
     \cup { [k |-> "tolen", p |-> x, i |-> a.i, j |-> a.j] : a \in S } \cup { [k |-> "topar", p |-> x, i |-> a.i, j |-> a.j] : a \in S }
     : x \in { y \in 1..Len(s.ps) : Quarterable(s.ps[y]) } }
M == INSTANCE ModelBase WITH ApplyOp <- PApply, InitSet <- Inits, InitState <- PInit, OpsFor <- Ops
MInit == M!MInit
MNext == M!MNext
MView == <<st, Len(hist)>>
InvGood == PGood(st)
Ok(x) == Quarterable(st.ps[x])
(* the parts on both sides of a cut are as long as the whole, and lie on it *)
InvCut == \A x \in Some : Ok(x) => LET p == st.ps[x] n == Len(p) IN
  \A a \in Spots(p) : Ord(a.i, a.j) > 0 /\ Ord(a.i, a.j) < 4 * n =>
    LET f == Sub(p, 1, 0, a.i, a.j) g == Sub(p, a.i, a.j, n, 4) IN
    /\ Plus(Length(st.w, f), Length(st.w, g)) = Length(st.w, p)
    /\ LET e == f[Len(f)] h == g[1] IN Label(st.w, e.s, e.hi) = Label(st.w, h.s, h.lo) /\ Label(st.w, h.s, h.lo) = PosAt(st.w, p, a.i, a.j)
    /\ LenTo(st.w, p, a.i, a.j) = Length(st.w, f)
(* lengths grow with the parameter, so every length has one parameter *)
InvRise == \A x \in Some : Ok(x) => LET p == st.ps[x] IN
  \A a, b \in Spots(p) : Ord(a.i, a.j) < Ord(b.i, b.j) =>
     LET u == LenTo(st.w, p, a.i, a.j) v == LenTo(st.w, p, b.i, b.j) IN u.a <= v.a /\ u.b <= v.b /\ u # v
====
