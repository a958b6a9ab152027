------------------------------ MODULE DslSyn ------------------------------
(* Concrete syntax of the yapCAD DSL: which token sequences are expressions    *)
(* and what tree they denote (precedence, associativity, comprehensions), and  *)
(* which line layouts are blocks and what nesting they denote.                 *)
(*   token  [k |-> num|name|str|bool|op, v]                                    *)
(*   line   [ind, k |-> stmt|if|elif|else|for|blank, lab]                      *)
EXTENDS Integers, Sequences, TLC

Prec(op) == CASE op = "or" -> 1 [] op = "and" -> 2
              [] op \in {"==", "!="} -> 3 [] op \in {"<", ">", "<=", ">="} -> 4
              [] op \in {"+", "-"} -> 5 [] op \in {"*", "/", "//", "%"} -> 6
              [] op = "**" -> 7 [] OTHER -> 0
Nil == [k |-> "nil"]
R(s, i, e) == [s |-> s, i |-> i, e |-> e]
Err == R("err", 0, Nil)
Tok(t, i) == IF i <= Len(t) THEN t[i] ELSE [k |-> "end", v |-> ""]
IsOp(t, i, v) == Tok(t, i).k = "op" /\ Tok(t, i).v = v

RECURSIVE Expr(_, _), Binary(_, _, _), Climb(_, _, _), Unary(_, _), Postfix(_, _), Primary(_, _),
          Args(_, _, _, _), Elems(_, _, _), ForClauses(_, _, _), IfConds(_, _, _)

\* value if condition else other
Expr(t, i) ==
  LET a == Binary(t, i, 1)
  IN IF a.s # "ok" \/ ~IsOp(t, a.i, "if") THEN a
     ELSE LET c == Binary(t, a.i + 1, 1)
          IN IF c.s # "ok" THEN c
             ELSE IF ~IsOp(t, c.i, "else") THEN a        \* an "if" without "else" is not ours
             ELSE LET b == Expr(t, c.i + 1)
                  IN IF b.s # "ok" THEN b
                     ELSE R("ok", b.i, [k |-> "tern", c |-> c.e, t |-> a.e, f |-> b.e])
Binary(t, i, p) ==
  LET l == Unary(t, i) IN IF l.s # "ok" THEN l ELSE Climb(t, l, p)
Climb(t, l, p) ==
  LET o == Tok(t, l.i)
      q == IF o.k = "op" THEN Prec(o.v) ELSE 0
  IN IF q = 0 \/ q < p THEN l
     ELSE LET r == Binary(t, l.i + 1, IF o.v = "**" THEN q ELSE q + 1)
          IN IF r.s # "ok" THEN r
             ELSE Climb(t, R("ok", r.i, [k |-> "bin", op |-> o.v, l |-> l.e, r |-> r.e]), p)
Unary(t, i) ==
  IF IsOp(t, i, "not") \/ IsOp(t, i, "-")
  THEN LET a == Unary(t, i + 1)
       IN IF a.s # "ok" THEN a ELSE R("ok", a.i, [k |-> "un", op |-> t[i].v, e |-> a.e])
  ELSE LET a == Primary(t, i)
       IN IF a.s # "ok" THEN a ELSE LET RECURSIVE Post(_)
               Post(x) ==
                 IF x.s # "ok" THEN x
                 ELSE IF IsOp(t, x.i, "(")
                 THEN LET g == Args(t, x.i + 1, <<>>, <<>>)
                      IN IF g.s # "ok" THEN g
                         ELSE Post(R("ok", g.i, [k |-> "call", f |-> x.e, args |-> g.e.args, named |-> g.e.named]))
                 ELSE IF IsOp(t, x.i, ".")
                 THEN IF Tok(t, x.i + 1).k # "name" THEN Err
                      ELSE IF IsOp(t, x.i + 2, "(")
                      THEN LET g == Args(t, x.i + 3, <<>>, <<>>)
                           IN IF g.s # "ok" THEN g
                              ELSE Post(R("ok", g.i, [k |-> "meth", o |-> x.e, n |-> t[x.i + 1].v,
                                                      args |-> g.e.args, named |-> g.e.named]))
                      ELSE Post(R("ok", x.i + 2, [k |-> "mem", o |-> x.e, n |-> t[x.i + 1].v]))
                 ELSE IF IsOp(t, x.i, "[")
                 THEN LET j == Expr(t, x.i + 1)
                      IN IF j.s # "ok" THEN j
                         ELSE IF ~IsOp(t, j.i, "]") THEN Err
                         ELSE Post(R("ok", j.i + 1, [k |-> "idx", e |-> x.e, i |-> j.e]))
                 ELSE x
            IN Post(a)
Postfix(t, i) == Unary(t, i)
Primary(t, i) ==
  LET o == Tok(t, i)
  IN CASE o.k = "num" -> R("ok", i + 1, [k |-> "num", v |-> o.v])
       [] o.k = "str" -> R("ok", i + 1, [k |-> "str", v |-> o.v])
       [] o.k = "bool" -> R("ok", i + 1, [k |-> "bool", v |-> o.v])
       [] o.k = "name" -> R("ok", i + 1, [k |-> "var", n |-> o.v])
       [] o.k = "op" /\ o.v = "(" ->
            LET a == Expr(t, i + 1)
            IN IF a.s # "ok" THEN a ELSE IF IsOp(t, a.i, ")") THEN R("ok", a.i + 1, a.e) ELSE Err
       [] o.k = "op" /\ o.v = "[" ->
            IF IsOp(t, i + 1, "]") THEN R("ok", i + 2, [k |-> "list", es |-> <<>>])
            ELSE LET a == Expr(t, i + 1)
                 IN IF a.s # "ok" THEN a
                    ELSE IF IsOp(t, a.i, "for")
                    THEN LET c == ForClauses(t, a.i, <<>>)
                         IN IF c.s # "ok" THEN c
                            ELSE IF IsOp(t, c.i, "]")
                            THEN R("ok", c.i + 1, [k |-> "comp", e |-> a.e, cl |-> c.e]) ELSE Err
                    ELSE IF IsOp(t, a.i, "..")
                    THEN LET b == Expr(t, a.i + 1)
                         IN IF b.s # "ok" THEN b
                            ELSE IF IsOp(t, b.i, "]")
                            THEN R("ok", b.i + 1, [k |-> "range", a |-> a.e, b |-> b.e]) ELSE Err
                    ELSE Elems(t, a.i, <<a.e>>)
       [] OTHER -> Err
Elems(t, i, acc) ==
  IF IsOp(t, i, "]") THEN R("ok", i + 1, [k |-> "list", es |-> acc])
  ELSE IF ~IsOp(t, i, ",") THEN Err
  ELSE IF IsOp(t, i + 1, "]") THEN R("ok", i + 2, [k |-> "list", es |-> acc])
  ELSE LET a == Expr(t, i + 1) IN IF a.s # "ok" THEN a ELSE Elems(t, a.i, Append(acc, a.e))
ForClauses(t, i, acc) ==
  IF ~IsOp(t, i, "for") THEN R("ok", i, acc)
  ELSE IF Tok(t, i + 1).k # "name" \/ ~IsOp(t, i + 2, "in") THEN Err
  ELSE LET it == Expr(t, i + 3)
       IN IF it.s # "ok" THEN it
          ELSE LET cs == IfConds(t, it.i, <<>>)
               IN IF cs.s # "ok" THEN cs
                  ELSE ForClauses(t, cs.i, Append(acc, [v |-> t[i + 1].v, it |-> it.e, conds |-> cs.e]))
IfConds(t, i, acc) ==
  IF ~IsOp(t, i, "if") THEN R("ok", i, acc)
  ELSE LET c == Expr(t, i + 1) IN IF c.s # "ok" THEN c ELSE IfConds(t, c.i, Append(acc, c.e))
\* arguments up to and including the closing parenthesis
Args(t, i, args, named) ==
  LET done == R("ok", i + 1, [args |-> args, named |-> named])
  IN IF IsOp(t, i, ")") THEN done
     ELSE LET isn == Tok(t, i).k = "name" /\ IsOp(t, i + 1, "=")
              a == Expr(t, IF isn THEN i + 2 ELSE i)
          IN IF a.s # "ok" THEN a
             ELSE IF isn /\ (\E j \in 1..Len(named) : named[j].n = t[i].v) THEN R("any", 0, Nil)
             ELSE IF ~isn /\ named # <<>> THEN R("any", 0, Nil)
             ELSE LET args2 == IF isn THEN args ELSE Append(args, a.e)
                      named2 == IF isn THEN Append(named, [n |-> t[i].v, e |-> a.e]) ELSE named
                  IN IF IsOp(t, a.i, ")") THEN R("ok", a.i + 1, [args |-> args2, named |-> named2])
                     ELSE IF IsOp(t, a.i, ",") THEN Args(t, a.i + 1, args2, named2)
                     ELSE Err

ParseExpr(t) ==
  LET a == Expr(t, 1)
  IN IF a.s = "any" THEN [any |-> TRUE]
     ELSE IF a.s = "ok" /\ a.i = Len(t) + 1 THEN [res |-> "ok", ast |-> a.e]
     ELSE [res |-> "syntax"]

(* ----------------------------------------------------------------- layout *)
(* blank lines and comments say nothing; the block under a header is the       *)
(* maximal run of lines indented deeper, which must share one indentation      *)
RECURSIVE Items(_, _, _), Arms(_, _, _, _)
\* items of a block of indentation d starting at line i; returns rest position
BR(s, i, b) == [s |-> s, i |-> i, b |-> b]
Bad == BR("err", 0, <<>>)
Body(ls, i, d) ==           \* the block under a header of indentation d
  IF i > Len(ls) \/ ls[i].ind <= d THEN Bad
  ELSE LET r == Items(ls, i, ls[i].ind)
       IN IF r.s # "ok" THEN Bad
          \* the block ends where a line is indented less; it may not stop between levels
          ELSE IF r.i <= Len(ls) /\ ls[r.i].ind > d THEN Bad
          ELSE r
Items(ls, i, d) ==
  IF i > Len(ls) \/ ls[i].ind < d THEN BR("ok", i, <<>>)
  ELSE IF ls[i].ind > d THEN Bad
  ELSE CASE ls[i].k = "stmt" ->
              LET r == Items(ls, i + 1, d)
              IN IF r.s # "ok" THEN Bad
                 ELSE BR("ok", r.i, <<[k |-> "stmt", lab |-> ls[i].lab]>> \o r.b)
         [] ls[i].k = "for" ->
              LET b == Body(ls, i + 1, d)
              IN IF b.s # "ok" THEN Bad
                 ELSE LET r == Items(ls, b.i, d)
                      IN IF r.s # "ok" THEN Bad
                         ELSE BR("ok", r.i, <<[k |-> "for", lab |-> ls[i].lab, body |-> b.b]>> \o r.b)
         [] ls[i].k = "if" ->
              LET b == Body(ls, i + 1, d)
              IN IF b.s # "ok" THEN Bad
                 ELSE LET a == Arms(ls, b.i, d, <<[lab |-> ls[i].lab, body |-> b.b]>>)
                      IN IF a.s # "ok" THEN Bad
                         ELSE LET r == Items(ls, a.i, d)
                              IN IF r.s # "ok" THEN Bad ELSE BR("ok", r.i, <<a.b>> \o r.b)
         [] OTHER -> Bad            \* elif or else without an if
Arms(ls, i, d, acc) ==
  LET stop == BR("ok", i, [k |-> "if", arms |-> acc, els |-> <<>>])
  IN IF i > Len(ls) \/ ls[i].ind # d THEN stop
     ELSE IF ls[i].k = "elif"
     THEN LET b == Body(ls, i + 1, d)
          IN IF b.s # "ok" THEN Bad ELSE Arms(ls, b.i, d, Append(acc, [lab |-> ls[i].lab, body |-> b.b]))
     ELSE IF ls[i].k = "else"
     THEN LET b == Body(ls, i + 1, d)
          IN IF b.s # "ok" THEN Bad ELSE BR("ok", b.i, [k |-> "if", arms |-> acc, els |-> b.b])
     ELSE stop
Layout(all) ==
  LET ls == SelectSeq(all, LAMBDA x : x.k # "blank")
      r == Body(ls, 1, 0)
  IN IF r.s = "ok" /\ r.i = Len(ls) + 1 THEN [res |-> "ok", tree |-> r.b] ELSE [res |-> "syntax"]

SApply(st, op) == [st |-> st, obs |-> IF op.k = "expr" THEN ParseExpr(op.toks) ELSE Layout(op.lines)]
SInit(i) == 0
SGood(st) == TRUE
=============================================================================
