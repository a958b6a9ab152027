---- MODULE KintMC ----
(* bounded model: three parts and a named frame moved about while two validators are filled and asked *)
EXTENDS Kint, Json, IOUtils
CONSTANTS Depth
VARIABLES ini, st, hist, done
X == [s |-> "", v |-> <<>>]
B0(k, a, b) == [n |-> "c", k |-> k, a |-> a, b |-> b, fa |-> "", fb |-> "", xa |-> X, xb |-> X, rc |-> <<>>, rr |-> <<>>, rx |-> <<>>, rn |-> <<>>, pc |-> 0, pr |-> 0,
                tm |-> -1, td |-> -1, ba |-> <<>>, bb |-> <<>>, mesh |-> FALSE, sev |-> "error", val |-> "none", how |-> "raw"]
BA == <<<<-2, -4, 0>>, <<2, 2, 6>>>>
BB == <<<<0, -2, -4>>, <<4, 4, 0>>>>
Cs == << B0("coincident", "A", "B"), [B0("coincident", "A", "B") EXCEPT !.fa = "top", !.fb = "BOTTOM", !.ba = BA, !.bb = BB, !.tm = 30],
         [B0("at_distance", "A", "B") EXCEPT !.fa = "LEFT", !.ba = BA, !.rr = <<3>>, !.tm = 10], [B0("at_distance", "A", "B") EXCEPT !.fa = "F", !.rr = <<2>>, !.tm = 5],
         [B0("concentric", "A", "B") EXCEPT !.tm = 25, !.td = 46], [B0("parallel", "A", "B") EXCEPT !.xa = [s |-> "x", v |-> <<>>], !.xb = [s |-> "", v |-> <<1, 1, 0>>], !.td = 46],
         [B0("perpendicular", "A", "B") EXCEPT !.xb = [s |-> "", v |-> <<1, 2, 2>>], !.td = 46, !.sev = "warning"],
         [B0("tangent", "A", "") EXCEPT !.rc = <<1, 0, 0>>, !.how = "help", !.td = 20], [B0("bolts", "A", "B") EXCEPT !.pc = 4, !.pr = 5, !.tm = 30, !.td = 20],
         [B0("min_distance", "A", "B") EXCEPT !.rr = <<3>>, !.ba = BA, !.bb = BB], [B0("min_distance", "A", "B") EXCEPT !.rr = <<3>>, !.sev = "info"],
         [B0("z_stack", "A", "B") EXCEPT !.rr = <<1>>, !.ba = BA, !.bb = BB], [B0("no_overlap", "A", "B") EXCEPT !.ba = BA, !.bb = BB, !.how = "help"],
         [B0("custom", "B", "") EXCEPT !.val = "count", !.pc = 3] >>
Named(i) == [Cs[i] EXCEPT !.n = <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n">>[i]]
Rs == { I3, RotM(<<1, 0, 0>>, 90), RotM(<<0, 1, 0>>, 90), RotM(<<0, 0, 1>>, 180), RotM(<<1, 1, 1>>, 120) }
Ts == { <<0, 0, 0>>, <<3, 0, 0>>, <<0, 2, 6>>, <<2, 2, 1>> }
Ps == { [R |-> r, t |-> t] : r \in Rs, t \in Ts }
In(s, v, n) == \E i \in 1..Len(s.vs[v]) : s.vs[v][i].n = n
OpsOf(s) ==
  { [k |-> "place", n |-> n, p |-> p, as |-> IF p.t[1] = 0 THEN "array" ELSE IF p.t[3] = 0 THEN "list" ELSE "transform"] : n \in {"A", "B"}, p \in Ps }
  \cup { [k |-> "place", n |-> n, p |-> [R |-> I3, t |-> <<1, 0, 1>>], as |-> "array"] : n \in {"A.F", "F"} }
  \cup { [k |-> "drop", n |-> "A.F"] : x \in { y \in {1} : Has(s.ws, "A.F") } }
  \cup { [k |-> "add", v |-> 1, cs |-> <<Named(i)>>] : i \in { j \in 1..Len(Cs) : ~In(s, 1, Named(j).n) /\ Len(s.vs[1]) < 4 } }
  \cup { [k |-> "ask", v |-> 1, i |-> i] : i \in 1..Len(s.vs[1]) }
  \cup { [k |-> w, v |-> 1] : w \in { x \in {"check", "raise", "clear"} : Len(s.vs[1]) > 1 } }
M == INSTANCE ModelBase WITH ApplyOp <- KApply, InitSet <- {[z |-> 0]}, InitState <- KInit, OpsFor <- OpsOf
MInit == M!MInit
MNext == M!MNext
MView == <<st, Len(hist)>>
InvGood == KGood(st)
Js(ws) == [i \in 1..Len(Cs) |-> Judge(ws, Cs[i])]
Moved(ws, g) == [i \in 1..Len(ws) |-> [ws[i] EXCEPT !.p = Comp(g, @)]]
Plain == {"coincident", "at_distance", "concentric", "parallel", "perpendicular", "bolts", "custom"}
\* a rigid motion of the whole world changes no verdict between two parts; boxes and stacks keep theirs under motions that keep the axes
InvMove == \A r \in Rs : LET g == [R |-> r, t |-> <<5, -3, 2>>] w == Moved(st.ws, g) IN
  \A i \in 1..Len(Cs) : LET c == Cs[i] a == Judge(st.ws, c) b == Judge(w, c) IN
    /\ (c.k \in Plain \/ c.k = "min_distance" \/ c.k = "no_overlap" \/ (c.k = "z_stack" /\ r[3] = <<0, 0, 1>>)) => a.sat = b.sat
    /\ (c.k \in Plain /\ c.k # "coincident") \/ c.k = "min_distance" => a.e = b.e
\* the two parts of a symmetric constraint may be exchanged
Swap(c) == [c EXCEPT !.a = c.b, !.b = c.a, !.fa = c.fb, !.fb = c.fa, !.ba = c.bb, !.bb = c.ba, !.xa = c.xb, !.xb = c.xa]
InvSwap == \A i \in 1..Len(Cs) : LET c == Cs[i] IN c.b # "" /\ c.fa # "F" /\ c.k # "concentric" =>
  Judge(st.ws, c).sat = Judge(st.ws, Swap(c)).sat
\* a looser tolerance never turns a satisfied constraint into a violated one, a larger clearance never the other way round
InvLoose == \A i \in 1..Len(Cs) : LET c == Cs[i] IN Judge(st.ws, c).sat =>
  /\ c.k \in {"coincident", "at_distance", "concentric", "bolts"} => \A t \in {0, 5, 20, 60} : t > TolMm(c) => Judge(st.ws, [c EXCEPT !.tm = t]).sat
  /\ c.k \in {"parallel", "perpendicular", "tangent", "concentric", "bolts"} => \A t \in {2, 20, 61, 85} : t > TolDeg(c) => Judge(st.ws, [c EXCEPT !.td = t]).sat
  /\ c.k \in {"min_distance", "z_stack"} => \A q \in {0, 1, 2} : q <= c.rr[1] => Judge(st.ws, [c EXCEPT !.rr = <<q>>]).sat
\* meeting places are at distance nothing, and meeting lines are parallel
InvTouch == \A f \in {"", "TOP", "back", "F"} : LET c == [Cs[2] EXCEPT !.fa = f] IN
  /\ Judge(st.ws, c).sat = Judge(st.ws, [c EXCEPT !.k = "at_distance", !.rr = <<0>>]).sat
  /\ Judge(st.ws, Cs[9]).sat => Judge(st.ws, [Cs[9] EXCEPT !.k = "concentric"]).sat /\ Judge(st.ws, [Cs[9] EXCEPT !.k = "parallel"]).sat
\* boxes that are apart by something do not overlap, boxes stacked with a clearance neither
InvBoxes == LET mn == Judge(st.ws, [Cs[10] EXCEPT !.rr = <<1>>]) no == Judge(st.ws, Cs[13]) IN
  Has(st.ws, "A") /\ Has(st.ws, "B") => (mn.sat => no.sat) /\ (Judge(st.ws, [Cs[12] EXCEPT !.rr = <<1>>]).sat => no.sat /\ mn.sat)
InvReport == \A v \in 1..2 : LET r == Report(st.ws, st.vs[v]) IN
  /\ r.counts[1] = r.counts[2] + r.counts[3] + r.counts[4] + Len(r.told)
  /\ r.valid = (\A i \in 1..Len(st.vs[v]) : Judge(st.ws, st.vs[v][i]).sat \/ Sev(st.vs[v][i]) # "error")
====
