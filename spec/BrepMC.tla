---- MODULE BrepMC ----
(* bounded model: boxes with and without missing faces, solids with voids, arcs, and moves of the whole *)
EXTENDS Brep, Json, IOUtils
CONSTANTS Depth
VARIABLES ini, st, hist, done
B(n, lo, hi, drop, cl) == [k |-> "box", g |-> 1, n |-> n, lo |-> lo, hi |-> hi, drop |-> drop, ty |-> "outer", closed |-> cl, check |-> TRUE]
Boxes == { B("A", <<0, 0, 0>>, <<12, 14, 16>>, <<>>, "?"), B("V", <<2, 4, 6>>, <<8, 10, 12>>, <<>>, "yes"), B("U", <<4, 2, 10>>, <<18, 20, 22>>, <<>>, "yes"),
           B("O", <<24, 26, 28>>, <<30, 32, 34>>, <<2>>, "?"), B("P", <<36, 38, 40>>, <<42, 44, 46>>, <<1, 4>>, "yes") }
Ms == { [m |-> "move", d |-> <<2, -4, 6>>], [m |-> "turn", a |-> 1, q |-> 1, c |-> <<2, 0, 4>>], [m |-> "turn", a |-> 2, q |-> 2, c |-> <<0, 2, 0>>], [m |-> "turn", a |-> 3, q |-> 3, c |-> <<2, 4, 0>>],
        [m |-> "flip", a |-> 1], [m |-> "flip", a |-> 3], [m |-> "grow", f |-> 2, c |-> <<2, 2, 2>>] }
ArcMs == { x \in Ms : x.m # "turn" \/ x.a = 3 \/ x.q = 2 }
Pts == { <<1, 1, 1>>, <<5, 5, 5>>, <<3, 5, 7>>, <<13, 5, 5>>, <<-1, 5, 5>>, <<25, 27, 29>> }
Fresh(g) == { b \in Boxes : ~Has(g.s, b.n) /\ ~Has(g.v, Nm(b.n, "v", 0)) }
Pairs(g) == { <<g.s[i].n, g.s[j].n>> : i \in 1..Len(g.s), j \in 1..Len(g.s) }
OpsOf(s) ==
  LET g == s.gs[1] IN
  Fresh(g)
  \cup { [k |-> "vert", g |-> 1, n |-> v.n, p |-> v.p, t |-> v.t] : v \in { x \in { [n |-> "a", p |-> <<1, 0, 0>>, t |-> 0], [n |-> "b", p |-> <<0, 1, 0>>, t |-> 2] } : ~Has(g.v, x.n) } }
  \cup { [k |-> "edge", g |-> 1, n |-> "c", a |-> "a", b |-> "b", kind |-> "arc", by |-> by, c |-> <<0, 0, 0>>, o |-> o, q |-> IF o = 1 THEN 1 ELSE 3, sense |-> TRUE, t |-> 0, obj |-> TRUE] :
          by \in { x \in {"bulge", "centre"} : Has(g.v, "a") /\ Has(g.v, "b") /\ ~Has(g.e, "c") }, o \in {1, -1} }
  \cup { [k |-> "solid", g |-> 1, n |-> "S", ss |-> IF p[1] = p[2] THEN <<p[1]>> ELSE p, check |-> TRUE] : p \in { q \in Pairs(g) : Len(g.sol) = 0 } }
  \cup { [k |-> "moved", g |-> 1, m |-> m, back |-> TRUE] : m \in { x \in (IF Has(g.e, "c") THEN ArcMs ELSE Ms) : Len(s.gs) < 2 } }
  \cup { [k |-> "reload", g |-> 1, how |-> "json"] : x \in { y \in {1} : Len(s.gs) < 2 } }
  \cup UNION { LET h == s.gs[i] IN
         { [k |-> "ask", w |-> "sum", g |-> i] } \cup { [k |-> "ask", w |-> "edge", g |-> i, n |-> h.e[j].n] : j \in { x \in 1..Len(h.e) : x % 5 = 1 } }
         \cup { [k |-> "ask", w |-> "shell", g |-> i, n |-> h.s[j].n] : j \in 1..Len(h.s) } : i \in 1..Len(s.gs) }
M == INSTANCE ModelBase WITH ApplyOp <- GApply, InitSet <- {[z |-> 0]}, InitState <- GInit, OpsFor <- OpsOf
MInit == M!MInit
MNext == M!MNext
MView == <<st, Len(hist)>>
InvGood == GGood(st)
\* whole boxes are closed spheres; a missing face leaves its four edges open
InvBox == \A i \in 1..Len(st.gs) : LET g == st.gs[i] IN \A j \in 1..Len(g.s) : LET sh == g.s[j] IN
  /\ (Len(sh.fs) = 6) = Closed(g, sh)
  /\ Len(sh.fs) = 6 => Counts(g, sh).x = 2 /\ \A k \in 1..Len(g.e) : Uses(g, sh, g.e[k].n) \in {0, 2}
  /\ Len(sh.fs) = 5 => Len(Border(g, sh)) = 4
  /\ sh.closed = "yes" => Closed(g, sh)
\* moves keep everything that is not a place: closedness, containment, crossing, validity, and arcs keep joining their ends
InvMove == LET g == st.gs[1] IN \A m \in Ms : LET h == GraphTo(m, g) IN
  /\ \A j \in 1..Len(g.s) : Closed(g, g.s[j]) = Closed(h, h.s[j])
  /\ \A j \in 1..Len(g.s) : Len(g.s[j].fs) = 6 => \A p \in Pts : Within(g, g.s[j], p) = Within(h, h.s[j], To(m, p))
  /\ \A i, j \in 1..Len(g.s) : Meets(g, g.s[i], g.s[j]) = Meets(h, h.s[i], h.s[j])
  /\ \A j \in 1..Len(g.sol) : SolidBad(g, g.sol[j].ss) = SolidBad(h, h.sol[j].ss)
  /\ m \in ArcMs => \A j \in 1..Len(h.e) : LET c == Curve(h, h.e[j]) IN c.at[Len(c.at)] = Get(h.v, h.e[j].b).p
  /\ m \in ArcMs => \A j \in 1..Len(h.e) : LET c == Curve(g, g.e[j]) d == Curve(h, h.e[j]) IN \A k \in 1..Len(c.at) : d.at[k] = To(m, c.at[k])
\* an accepted solid has its voids inside: their points are inside of the outer shell, and not the other way round
InvVoid == LET g == st.gs[1] IN \A j \in 1..Len(g.sol) : \A k \in 2..Len(g.sol[j].ss) :
  LET out == Get(g.s, g.sol[j].ss[1]) in == Get(g.s, g.sol[j].ss[k]) IN
  \A p \in Pts : Within(g, in, p) => Within(g, out, p)
====
