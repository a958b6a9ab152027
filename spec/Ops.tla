--------------------------------- MODULE Ops ---------------------------------
(* Resolving the operations of an assembly: parts carry a geometry (a set of  *)
(* cells) and may be declared cutters of other parts; the resolver applies    *)
(* every operation to its targets in the declared order, in one pass or stage *)
(* by stage, and reports what was done, kept, warned about and failed.        *)
(* Cells 0..7 lie along the inner bar, 8..15 are the ring around it.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

OpsInit(i) == [ps |-> <<>>, fails |-> <<>>, res |-> <<>>]
\* a part: [n, geo (has geometry), g (set of cells), o (operation; kind "" when it is none)]
HasN(q, n) == \E i \in 1..Len(q) : q[i].n = n
GetN(q, n) == q[CHOOSE i \in 1..Len(q) : q[i].n = n]
PutP(q, e) == IF HasN(q, e.n) THEN [i \in 1..Len(q) |-> IF q[i].n = e.n THEN e ELSE q[i]] ELSE Append(q, e)
In(x, q) == \E i \in 1..Len(q) : q[i] = x
Cells(op) == (op.lo .. (op.hi - 1)) \cup (IF op.wide THEN (8 + op.lo) .. (7 + op.hi) ELSE {})
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Volume(S) == Cardinality({c \in S : c < 8}) + 3 * Cardinality({c \in S : c > 7})

Pri(o) == IF o.pr < 0 THEN 50 ELSE o.pr
Consumed(o) == o.co # "n"
Policy(o) == IF o.po = "-" THEN "strict" ELSE o.po
Bool(k, a, b) == CASE k = "subtract" -> a \ b [] k = "intersect" -> a \cap b [] OTHER -> a \cup b

\* operations aimed at target t: once for each time the cutter names it, lowest priority number first, else as declared
RECURSIVE Mine(_, _)
Mine(cs, t) == IF cs = <<>> THEN <<>>
               ELSE [i \in 1..Cardinality({j \in 1..Len(Head(cs).o.tf) : Head(cs).o.tf[j] = t}) |-> Head(cs)] \o Mine(Tail(cs), t)
RECURSIVE Insert(_, _)
Insert(c, q) == IF q = <<>> \/ Pri(c.o) < Pri(Head(q).o) THEN <<c>> \o q ELSE <<Head(q)>> \o Insert(c, Tail(q))
RECURSIVE ByPri(_)
ByPri(q) == IF q = <<>> THEN <<>> ELSE Insert(q[Len(q)], ByPri(SubSeq(q, 1, Len(q) - 1)))
\* Insert puts the last-declared first among equals of the remainder, so build from the front
RECURSIVE Stable(_, _)
Stable(q, acc) == IF q = <<>> THEN acc ELSE Stable(Tail(q), Insert(Head(q), acc))

Blank == [ap |-> <<>>, re |-> <<>>, wa |-> <<>>, er |-> <<>>, lg |-> <<>>, void |-> FALSE]
Complain(r, c) == CASE Policy(c.o) = "strict" -> [r EXCEPT !.er = Append(@, c.n)]
                    [] Policy(c.o) = "warn" -> [r EXCEPT !.wa = Append(@, c.n)]
                    [] OTHER -> r
\* geo: what the parts look like at the start of the pass
RECURSIVE Cut(_, _, _, _, _)
Cut(r, g, cs, geo, fails) ==
  IF cs = <<>> THEN [r |-> r, g |-> g]
  ELSE LET c == Head(cs) IN
    IF ~HasN(geo, c.n) THEN Cut(Complain(r, c), g, Tail(cs), geo, fails)
    ELSE LET bad == In(c.n, fails)
             ng == IF bad THEN g ELSE Bool(c.o.kind, g, GetN(geo, c.n).g)
             r1 == [r EXCEPT !.lg = Append(@, c.n), !.void = @ \/ ng = {}]
             r2 == IF bad THEN Complain(r1, c) ELSE [r1 EXCEPT !.ap = Append(@, c.n)]
             r3 == IF Consumed(c.o) THEN r2 ELSE [r2 EXCEPT !.re = Append(@, c.n)]
         IN Cut(r3, ng, Tail(cs), geo, fails)

\* one pass: geo = <<[n, g]>>, cutters = <<[n, o]>>; result = <<[n, g, r]>>
RECURSIVE Pass(_, _, _, _)
Pass(todo, geo, cutters, fails) ==
  IF todo = <<>> THEN <<>>
  ELSE LET p == Head(todo) ms == Stable(Mine(cutters, p.n), <<>>) IN
    IF ms = <<>>
    THEN (IF HasN(cutters, p.n) /\ Consumed(GetN(cutters, p.n).o) THEN <<>> ELSE <<[n |-> p.n, g |-> p.g, r |-> Blank]>>)
         \o Pass(Tail(todo), geo, cutters, fails)
    ELSE LET x == Cut(Blank, p.g, ms, geo, fails)
         IN <<[n |-> p.n, g |-> x.g, r |-> x.r]>> \o Pass(Tail(todo), geo, cutters, fails)

Geo(s) == [i \in 1..Len(SelectSeq(s.ps, LAMBDA p : p.geo)) |->
             LET p == SelectSeq(s.ps, LAMBDA q : q.geo)[i] IN [n |-> p.n, g |-> p.g]]
Cutters(s) == LET q == SelectSeq(s.ps, LAMBDA p : p.o.kind # "") IN [i \in 1..Len(q) |-> [n |-> q[i].n, o |-> q[i].o]]
Aimless(s) == LET q == SelectSeq(Cutters(s), LAMBDA c : c.o.tf = <<>>) IN [i \in 1..Len(q) |-> q[i].n]

Join(a, b) == [ap |-> a.ap \o b.ap, re |-> a.re \o b.re, wa |-> a.wa \o b.wa, er |-> a.er \o b.er, lg |-> a.lg \o b.lg, void |-> a.void \/ b.void]
StageOf(o, stages) == IF In(o.st, stages) THEN o.st ELSE stages[Len(stages)]
\* cur = <<[n, g, r]>>: every stage continues from what the stages before it left
RECURSIVE Stages(_, _, _, _, _)
Stages(todo, stages, cur, cutters, fails) ==
  IF todo = <<>> THEN cur
  ELSE LET b == SelectSeq(cutters, LAMBDA c : StageOf(c.o, stages) = Head(todo))
           geo == [i \in 1..Len(cur) |-> [n |-> cur[i].n, g |-> cur[i].g]]
           out == Pass(geo, geo, b, fails)
           nxt == [i \in 1..Len(out) |-> [out[i] EXCEPT !.r = Join(GetN(cur, out[i].n).r, @)]]
       IN Stages(Tail(todo), stages, IF b = <<>> THEN cur ELSE nxt, cutters, fails)
\* what a dropped part went through is still reported: errors of the run are the errors of all parts at all times;
\* a part is dropped only when it is a consumed cutter that was no target in that stage, so it may have errors of earlier stages
RECURSIVE StageErr(_, _, _, _, _)
StageErr(todo, stages, cur, cutters, fails) ==
  IF todo = <<>> THEN [er |-> <<>>, lg |-> <<>>, void |-> FALSE]
  ELSE LET b == SelectSeq(cutters, LAMBDA c : StageOf(c.o, stages) = Head(todo))
           geo == [i \in 1..Len(cur) |-> [n |-> cur[i].n, g |-> cur[i].g]]
           out == IF b = <<>> THEN [i \in 1..Len(cur) |-> [cur[i] EXCEPT !.r = Blank]] ELSE Pass(geo, geo, b, fails)
           rest == StageErr(Tail(todo), stages, out, cutters, fails)
       IN [er |-> FlattenSeq([i \in 1..Len(out) |-> [j \in 1..Len(out[i].r.er) |-> <<out[i].r.er[j], out[i].n>>]]) \o rest.er,
           lg |-> FlattenSeq([i \in 1..Len(out) |-> [j \in 1..Len(out[i].r.lg) |-> <<out[i].r.lg[j], out[i].n>>]]) \o rest.lg,
           void |-> rest.void \/ \E i \in 1..Len(out) : out[i].r.void]

Plain(s) == LET g == Geo(s) IN [i \in 1..Len(g) |-> [n |-> g[i].n, g |-> g[i].g, r |-> Blank]]
Run(s, how, stages) ==
  IF Aimless(s) # <<>> THEN [ps |-> Plain(s), er |-> [i \in 1..Len(Aimless(s)) |-> <<Aimless(s)[i]>>], lg |-> <<>>, void |-> FALSE]
  ELSE LET st == IF how = "staged" THEN stages ELSE <<"only">>
           e == StageErr(st, st, Plain(s), Cutters(s), s.fails)
       IN [ps |-> Stages(st, st, Plain(s), Cutters(s), s.fails), er |-> e.er, lg |-> e.lg, void |-> e.void]

Shown(p, real) == [n |-> p.n, g |-> IF real THEN <<Volume(p.g)>> ELSE Sorted(p.g), ap |-> p.r.ap, re |-> p.r.re, wa |-> p.r.wa, er |-> p.r.er]
Ok(s) == [st |-> s, obs |-> [res |-> "ok"]]
Ret(s, o) == [st |-> s, obs |-> o]
OpsApply(s, op) ==
  CASE op.k = "put" -> Ok([s EXCEPT !.ps = PutP(@, [n |-> op.n, geo |-> op.geo, g |-> Cells(op), o |-> op.o])])
    [] op.k = "fail" -> Ok([s EXCEPT !.fails = op.ns])
    [] op.k = "bad" -> Ret(s, [res |-> op.e])            \* no stages, the placeholder, an unknown resolver
    [] op.k = "run" ->
         LET r == Run(s, op.how, op.stages) IN
         IF op.real /\ (r.void \/ s.fails # <<>> \/ \E i \in 1..Len(s.ps) : s.ps[i].g = {}) THEN Ret([s EXCEPT !.res = r.ps], [any |-> TRUE])
         ELSE Ret([s EXCEPT !.res = r.ps],
                  [res |-> "ok", ps |-> [i \in 1..Len(r.ps) |-> Shown(r.ps[i], op.real)], good |-> r.er = <<>>, er |-> r.er, lg |-> r.lg,
                   engine |-> TRUE, kept |-> TRUE])
    [] op.k = "feed" ->              \* continue with what the last run left
         Ok([s EXCEPT !.ps = SelectSeq([i \in 1..Len(@) |-> LET p == @[i] IN
               IF HasN(s.res, p.n) THEN [p EXCEPT !.g = GetN(s.res, p.n).g, !.o.kind = ""] ELSE [p EXCEPT !.geo = FALSE]],
               LAMBDA p : p.geo), !.res = <<>>])
OpsGood(s) == TRUE
=============================================================================
