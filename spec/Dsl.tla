-------------------------------- MODULE Dsl --------------------------------
(* Semantics of the yapCAD DSL over abstract syntax: static rules (which       *)
(* modules are accepted) and big-step dynamic rules (what running a command    *)
(* yields).  Numbers are exact: every number is held in units of 1/64, and an  *)
(* evaluation that leaves the exactly representable range is marked "any"      *)
(* (the specification then says nothing about it).                             *)
(*   expression  k: num bool str var bin un call idx list comp range tern      *)
(*   statement   k: def set req emit for if expr pass ret                      *)
(* A type is <<base, depth>>: depth counts enclosing lists; base "?" is the    *)
(* element type of an empty list (depth > 0) or of an unannotated parameter.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

S == 64
MaxV == 1073741823
AbsI(a) == IF a < 0 THEN -a ELSE a
FloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
FloorMod(a, b) == a - b * FloorDiv(a, b)

(* ----------------------------------------------------------- static rules *)
INT == <<"int", 0>>
FLT == <<"float", 0>>
BOO == <<"bool", 0>>
STR == <<"string", 0>>
UNK == <<"?", 0>>
ERRT == <<"!", 0>>
ListOf(t) == <<t[1], t[2] + 1>>
ElemOf(t) == <<t[1], t[2] - 1>>
IsNum(t) == t = INT \/ t = FLT
RECURSIVE Assignable(_, _)
Assignable(a, b) ==
  IF a = b \/ a = UNK \/ a = ERRT THEN TRUE
  ELSE IF a[2] > 0 THEN b[2] > 0 /\ (b = <<"?", 1>> \/ Assignable(ElemOf(a), ElemOf(b)))
  ELSE a = FLT /\ b = INT
Common(a, b) == IF Assignable(a, b) THEN a
                ELSE IF Assignable(b, a) THEN b
                ELSE IF IsNum(a) /\ IsNum(b) THEN FLT ELSE <<"none", 0>>
NoCommon == <<"none", 0>>

\* environments: sequences of scopes, innermost last
Empty == [x \in {} |-> 0]
RECURSIVE Find(_, _, _)
Find(env, i, n) == IF i = 0 THEN 0 ELSE IF n \in DOMAIN env[i] THEN i ELSE Find(env, i - 1, n)
Has(env, n) == Find(env, Len(env), n) > 0
Get(env, n) == env[Find(env, Len(env), n)][n]
Bind(env, n, v) == [env EXCEPT ![Len(env)] = (n :> v) @@ @]
Upd(env, n, v) == [env EXCEPT ![Find(env, Len(env), n)] = (n :> v) @@ @]
Push(env) == Append(env, Empty)
Pop(env) == SubSeq(env, 1, Len(env) - 1)

CmdNames(m) == { m[i].n : i \in 1..Len(m) }
Cmd(m, n) == m[CHOOSE i \in 1..Len(m) : m[i].n = n]
ParamNames(c) == { c.params[i].n : i \in 1..Len(c.params) }
ParamAt(c, n) == CHOOSE i \in 1..Len(c.params) : c.params[i].n = n
Required(c) == Cardinality({ i \in 1..Len(c.params) : ~c.params[i].has })

L(t) == ListOf(t)
\* built-in functions: parameter types (UNK accepts anything), result
Builtins == [abs |-> <<<<FLT>>, FLT>>, floor |-> <<<<FLT>>, INT>>, ceil |-> <<<<FLT>>, INT>>,
   round |-> <<<<FLT>>, INT>>, min |-> <<<<FLT, FLT>>, FLT>>, max |-> <<<<FLT, FLT>>, FLT>>,
   len |-> <<<<L(UNK)>>, INT>>, range |-> <<<<INT>>, L(INT)>>,
   concat |-> <<<<L(UNK), L(UNK)>>, L(UNK)>>, reverse |-> <<<<L(UNK)>>, L(UNK)>>,
   flatten |-> <<<<L(L(UNK))>>, L(UNK)>>,
   sum |-> <<<<L(FLT)>>, FLT>>, product |-> <<<<L(FLT)>>, FLT>>,
   any_true |-> <<<<L(BOO)>>, BOO>>, all_true |-> <<<<L(BOO)>>, BOO>>,
   min_of |-> <<<<L(FLT)>>, FLT>>, max_of |-> <<<<L(FLT)>>, FLT>>,
   pow |-> <<<<FLT, FLT>>, FLT>>]
Variadic == {"min", "max", "range"}

Arith == {"+", "-", "*", "/", "//", "%", "**"}
Orders == {"<", ">", "<=", ">="}

\* result: [t |-> type, ok |-> BOOLEAN]
T(t, ok) == [t |-> t, ok |-> ok]
RECURSIVE TypeE(_, _, _), TypeClauses(_, _, _, _), TypeElems(_, _, _, _, _)
TypeE(m, env, e) ==
  CASE e.k = "num" -> T(IF e.int THEN INT ELSE FLT, TRUE)
    [] e.k = "bool" -> T(BOO, TRUE)
    [] e.k = "str" -> T(STR, TRUE)
    [] e.k = "var" -> IF Has(env, e.n) THEN T(Get(env, e.n), TRUE) ELSE T(ERRT, FALSE)
    [] e.k = "bin" ->
        LET l == TypeE(m, env, e.l)
            r == TypeE(m, env, e.r)
            both == l.ok /\ r.ok
        IN IF e.op \in Arith THEN
             IF IsNum(l.t) /\ IsNum(r.t)
             THEN T(IF e.op = "//" THEN INT
                    ELSE IF l.t = FLT \/ r.t = FLT \/ e.op = "/" THEN FLT ELSE INT, both)
             ELSE IF e.op = "+" /\ l.t[2] > 0 /\ r.t[2] > 0
             THEN LET c == Common(ElemOf(l.t), ElemOf(r.t))
                  IN T(IF c = NoCommon THEN l.t ELSE L(c), both)
             ELSE T(ERRT, FALSE)
           ELSE IF e.op \in Orders THEN
             IF IsNum(l.t) /\ IsNum(r.t) THEN T(BOO, both) ELSE T(ERRT, FALSE)
           ELSE IF e.op \in {"==", "!="} THEN T(BOO, both)
           ELSE T(BOO, both /\ l.t = BOO /\ r.t = BOO)       \* and, or
    [] e.k = "un" ->
        LET a == TypeE(m, env, e.e)
        IN IF e.op = "not" THEN T(BOO, a.ok /\ a.t = BOO)
           ELSE T(IF IsNum(a.t) THEN a.t ELSE ERRT, a.ok /\ IsNum(a.t))
    [] e.k = "call" ->
        LET as == [i \in 1..Len(e.args) |-> TypeE(m, env, e.args[i])]
            ns == [i \in 1..Len(e.named) |-> TypeE(m, env, e.named[i].e)]
            argsok == (\A i \in 1..Len(as) : as[i].ok) /\ (\A i \in 1..Len(ns) : ns[i].ok)
        IN IF e.f \in DOMAIN Builtins THEN
             LET b == Builtins[e.f]
                 fit == /\ Len(as) >= Len(b[1])
                        /\ (Len(as) = Len(b[1]) \/ e.f \in Variadic)
                        /\ \A i \in 1..Len(b[1]) : i <= Len(as) => Assignable(b[1][i], as[i].t)
                        /\ Len(ns) = 0
                 rt == IF e.f \in {"concat", "reverse"} /\ Len(as) > 0 /\ as[1].t[2] > 0 THEN as[1].t
                       ELSE IF e.f = "flatten" /\ Len(as) > 0 /\ as[1].t[2] > 1 THEN ElemOf(as[1].t)
                       ELSE b[2]
             IN T(rt, argsok /\ fit)
           ELSE IF e.f \in CmdNames(m) THEN
             LET c == Cmd(m, e.f)
                 n == Len(as)
                 given == { e.named[i].n : i \in 1..Len(e.named) }
                 fit == /\ n <= Len(c.params)
                        /\ \A i \in 1..n : i <= Len(c.params) => Assignable(c.params[i].ty, as[i].t)
                        /\ \A i \in 1..Len(e.named) :
                              /\ e.named[i].n \in ParamNames(c)
                              /\ ParamAt(c, e.named[i].n) > n
                              /\ Assignable(c.params[ParamAt(c, e.named[i].n)].ty, ns[i].t)
                        /\ \A i \in (n+1)..Len(c.params) : c.params[i].has \/ c.params[i].n \in given
             IN T(c.ret, argsok /\ fit)
           ELSE T(ERRT, FALSE)
    [] e.k = "idx" ->
        LET a == TypeE(m, env, e.e)
            i == TypeE(m, env, e.i)
        IN T(IF a.t[2] > 0 THEN ElemOf(a.t) ELSE ERRT, a.ok /\ i.ok /\ i.t = INT /\ a.t[2] > 0)
    [] e.k = "list" ->
        IF e.es = <<>> THEN T(L(UNK), TRUE)
        ELSE LET f == TypeE(m, env, e.es[1])
             IN TypeElems(m, env, e.es, 2, f)
    [] e.k = "comp" ->
        LET c == TypeClauses(m, Push(env), e.cl, 1)
            b == TypeE(m, c.env, e.e)
        IN T(L(b.t), c.ok /\ b.ok)
    [] e.k = "range" ->
        LET a == TypeE(m, env, e.a)
            b == TypeE(m, env, e.b)
        IN T(L(INT), a.ok /\ b.ok /\ a.t = INT /\ b.t = INT)
    [] e.k = "tern" ->
        LET c == TypeE(m, env, e.c)
            a == TypeE(m, env, e.t)
            b == TypeE(m, env, e.f)
            ct == Common(a.t, b.t)
        IN T(IF ct = NoCommon THEN a.t ELSE ct,
             c.ok /\ c.t = BOO /\ a.ok /\ b.ok /\ ct # NoCommon)
TypeElems(m, env, es, i, acc) ==
  IF i > Len(es) THEN T(L(acc.t), acc.ok)
  ELSE LET t == TypeE(m, env, es[i])
           c == IF Assignable(acc.t, t.t) THEN acc.t ELSE Common(acc.t, t.t)
       IN TypeElems(m, env, es, i + 1,
                    T(IF c = NoCommon THEN acc.t ELSE c, acc.ok /\ t.ok /\ c # NoCommon))
TypeClauses(m, env, cl, i) ==
  IF i > Len(cl) THEN [env |-> env, ok |-> TRUE]
  ELSE LET it == TypeE(m, env, cl[i].it)
           env2 == Bind(env, cl[i].v, IF it.t[2] > 0 THEN ElemOf(it.t) ELSE INT)
           cs == [j \in 1..Len(cl[i].conds) |-> TypeE(m, env2, cl[i].conds[j])]
           rest == TypeClauses(m, env2, cl, i + 1)
       IN [env |-> rest.env,
           ok |-> it.ok /\ it.t[2] > 0 /\ rest.ok /\ \A j \in 1..Len(cs) : cs[j].ok /\ cs[j].t = BOO]

RECURSIVE TypeB(_, _, _, _, _), TypeArms(_, _, _, _, _)
\* returns [env, ok]; the block's own scope is the caller's business
TypeB(m, c, env, b, i) ==
  IF i > Len(b) THEN [env |-> env, ok |-> TRUE]
  ELSE LET s == b[i]
           r == CASE s.k \in {"def", "set"} ->
                      LET t == TypeE(m, env, s.e)
                      IN IF s.k = "set" /\ Has(env, s.n)
                         THEN [env |-> env, ok |-> t.ok /\ Assignable(Get(env, s.n), t.t)]
                         ELSE LET ann == s.ty[1] # ""
                                  dup == s.n \in DOMAIN env[Len(env)]
                                  vt == IF ann THEN s.ty ELSE t.t
                              IN [env |-> IF dup THEN env ELSE Bind(env, s.n, vt),
                                  ok |-> t.ok /\ ~dup /\ (ann => Assignable(s.ty, t.t))]
                  [] s.k = "req" ->
                      LET t == TypeE(m, env, s.c)
                          u == IF s.hasmsg THEN TypeE(m, env, s.m) ELSE T(STR, TRUE)
                      IN [env |-> env, ok |-> t.ok /\ t.t = BOO /\ u.ok /\ u.t = STR]
                  [] s.k = "emit" ->
                      LET t == TypeE(m, env, s.e)
                      IN [env |-> env, ok |-> t.ok /\ Assignable(c.ret, t.t)
                             /\ \A j \in 1..Len(s.meta) : TypeE(m, env, s.meta[j].e).ok]
                  [] s.k = "for" ->
                      LET it == TypeE(m, env, s.it)
                          et == IF it.t[2] > 0 THEN ElemOf(it.t) ELSE INT
                          bd == TypeB(m, c, Bind(Push(env), s.v, et), s.body, 1)
                      IN [env |-> env, ok |-> it.ok /\ it.t[2] > 0 /\ bd.ok]
                  [] s.k = "if" ->
                      LET a == TypeArms(m, c, env, s.arms, 1)
                          e == IF s.hasels THEN TypeB(m, c, Push(env), s.els, 1).ok ELSE TRUE
                      IN [env |-> env, ok |-> a /\ e]
                  [] s.k = "expr" -> [env |-> env, ok |-> TypeE(m, env, s.e).ok]
                  [] OTHER -> [env |-> env, ok |-> TRUE]        \* pass, ret
           rest == TypeB(m, c, r.env, b, i + 1)
       IN [env |-> rest.env, ok |-> r.ok /\ rest.ok]
TypeArms(m, c, env, arms, i) ==
  IF i > Len(arms) THEN TRUE
  ELSE LET t == TypeE(m, env, arms[i].c)
       IN t.ok /\ t.t = BOO /\ TypeB(m, c, Push(env), arms[i].body, 1).ok /\ TypeArms(m, c, env, arms, i + 1)

RECURSIVE ParamScope(_, _, _, _)
ParamScope(m, c, i, env) ==
  IF i > Len(c.params) THEN [env |-> env, ok |-> TRUE]
  ELSE LET p == c.params[i]
           dup == p.n \in DOMAIN env[1]
           d == IF p.has THEN TypeE(m, env, p.d) ELSE T(p.ty, TRUE)
           rest == ParamScope(m, c, i + 1, IF dup THEN env ELSE Bind(env, p.n, p.ty))
       IN [env |-> rest.env, ok |-> ~dup /\ d.ok /\ Assignable(p.ty, d.t) /\ rest.ok]
CmdOk(m, c) == LET p == ParamScope(m, c, 1, <<Empty>>)
               IN p.ok /\ TypeB(m, c, p.env, c.body, 1).ok
ModuleOk(m) == /\ Cardinality(CmdNames(m)) = Len(m)
               /\ \A i \in 1..Len(m) : CmdOk(m, m[i])

(* ---------------------------------------------------------- dynamic rules *)
Num(v) == [t |-> "num", v |-> v]
Boo(b) == [t |-> "bool", v |-> b]
Str(s) == [t |-> "str", v |-> s]
Lst(s) == [t |-> "list", v |-> s]
Ok(v, f) == [v |-> v, f |-> f, x |-> ""]
Fail(f) == [v |-> Boo(FALSE), f |-> f, x |-> "error"]
Unk(f) == [v |-> Boo(FALSE), f |-> f, x |-> "any"]
NumR(v, f) == IF AbsI(v) > MaxV \div 2 THEN Unk(f) ELSE Ok(Num(v), f)

Mul(a, b, f) ==
  IF a = 0 \/ b = 0 THEN Ok(Num(0), f)
  ELSE IF a % S = 0
  THEN IF AbsI(b) > (MaxV \div 2) \div AbsI(a \div S) THEN Unk(f) ELSE NumR((a \div S) * b, f)
  ELSE IF b % S = 0
  THEN IF AbsI(a) > (MaxV \div 2) \div AbsI(b \div S) THEN Unk(f) ELSE NumR((b \div S) * a, f)
  ELSE IF AbsI(b) > (MaxV \div 2) \div AbsI(a) THEN Unk(f)
  ELSE IF (a * b) % S # 0 THEN Unk(f) ELSE NumR((a * b) \div S, f)
Div(a, b, f) ==
  IF b = 0 THEN Fail(f)
  ELSE IF AbsI(a) > MaxV \div (2 * S) THEN Unk(f)
  ELSE IF FloorMod(a * S, b) # 0 THEN Unk(f)
  ELSE NumR(FloorDiv(a * S, b), f)
RECURSIVE PowN(_, _, _)
PowN(a, n, f) == IF n = 0 THEN Ok(Num(S), f)
                 ELSE LET p == PowN(a, n - 1, f) IN IF p.x # "" THEN p ELSE Mul(p.v.v, a, f)
Pow(a, b, f) ==
  IF b % S # 0 \/ AbsI(b) > 12 * S THEN Unk(f)
  ELSE IF b >= 0 THEN PowN(a, b \div S, f)
  ELSE IF a = 0 THEN Fail(f)
  ELSE LET p == PowN(a, (-b) \div S, f) IN IF p.x # "" THEN p
       ELSE IF p.v.v = 0 THEN Unk(f) ELSE Div(S, p.v.v, f)

RECURSIVE VEq(_, _)
VEq(a, b) == IF a.t # b.t THEN FALSE
             ELSE IF a.t = "list"
             THEN Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : VEq(a.v[i], b.v[i])
             ELSE a.v = b.v

BinOp(op, l, r, f) ==
  IF op \in Arith /\ l.t = "num" /\ r.t = "num" THEN
    CASE op = "+" -> NumR(l.v + r.v, f)
      [] op = "-" -> NumR(l.v - r.v, f)
      [] op = "*" -> Mul(l.v, r.v, f)
      [] op = "/" -> Div(l.v, r.v, f)
      [] op = "//" -> IF r.v = 0 THEN Fail(f) ELSE
                       IF AbsI(FloorDiv(l.v, r.v)) > MaxV \div (2 * S) THEN Unk(f)
                       ELSE NumR(S * FloorDiv(l.v, r.v), f)
      [] op = "%" -> IF r.v = 0 THEN Fail(f) ELSE NumR(FloorMod(l.v, r.v), f)
      [] OTHER -> Pow(l.v, r.v, f)
  ELSE IF op = "+" /\ l.t = "list" /\ r.t = "list" THEN Ok(Lst(l.v \o r.v), f)
  ELSE IF op = "==" THEN Ok(Boo(VEq(l, r)), f)
  ELSE IF op = "!=" THEN Ok(Boo(~VEq(l, r)), f)
  ELSE IF op \in Orders /\ l.t = "num" /\ r.t = "num" THEN
    CASE op = "<" -> Ok(Boo(l.v < r.v), f)
      [] op = ">" -> Ok(Boo(l.v > r.v), f)
      [] op = "<=" -> Ok(Boo(l.v <= r.v), f)
      [] OTHER -> Ok(Boo(l.v >= r.v), f)
  ELSE Unk(f)

RangeSeq(a, b, st) ==
  LET n == IF st > 0 THEN (IF b > a THEN (b - a + st - 1) \div st ELSE 0)
           ELSE (IF a > b THEN (a - b + (-st) - 1) \div (-st) ELSE 0)
  IN [i \in 1..n |-> Num(S * (a + (i - 1) * st))]
RECURSIVE FoldAdd(_, _), FoldMul(_, _, _), MinSeq(_, _), MaxSeq(_, _), Concat(_)
FoldAdd(s, f) == IF s = <<>> THEN Ok(Num(0), f)
                 ELSE LET r == FoldAdd(SubSeq(s, 1, Len(s) - 1), f)
                      IN IF r.x # "" THEN r ELSE NumR(r.v.v + s[Len(s)].v, f)
FoldMul(s, acc, f) == IF s = <<>> THEN Ok(Num(acc), f)
                      ELSE LET r == Mul(acc, s[1].v, f) IN IF r.x # "" THEN r ELSE FoldMul(Tail(s), r.v.v, f)
MinSeq(s, acc) == IF s = <<>> THEN acc ELSE MinSeq(Tail(s), IF s[1].v < acc THEN s[1].v ELSE acc)
MaxSeq(s, acc) == IF s = <<>> THEN acc ELSE MaxSeq(Tail(s), IF s[1].v > acc THEN s[1].v ELSE acc)
Concat(s) == IF s = <<>> THEN <<>> ELSE s[1].v \o Concat(Tail(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* lists of mixed elements ([1] + [[TRUE]]) pass the type checker: what becomes of their elements is not judged
All(s, k) == \A i \in 1..Len(s) : s[i].t = k
Fits(fn, a) ==
  CASE fn \in {"abs", "floor", "ceil", "round", "min", "max", "pow", "range"} -> All(a, "num")
    [] fn \in {"len", "concat", "reverse"} -> All(a, "list")
    [] fn = "flatten" -> All(a, "list") /\ All(a[1].v, "list")
    [] fn \in {"sum", "product", "min_of", "max_of"} -> All(a, "list") /\ All(a[1].v, "num")
    [] fn \in {"any_true", "all_true"} -> All(a, "list") /\ All(a[1].v, "bool")
    [] OTHER -> TRUE
CallB(fn, a, f) ==
  CASE ~Fits(fn, a) -> Unk(f)
    [] fn = "abs" -> Ok(Num(AbsI(a[1].v)), f)
    [] fn = "floor" -> Ok(Num(S * FloorDiv(a[1].v, S)), f)
    [] fn = "ceil" -> Ok(Num(-(S * FloorDiv(-a[1].v, S))), f)
    [] fn = "round" -> IF FloorMod(a[1].v, S) = S \div 2 THEN Unk(f)
                       ELSE Ok(Num(S * FloorDiv(a[1].v + S \div 2, S)), f)
    [] fn = "min" -> Ok(Num(MinSeq(Tail(a), a[1].v)), f)
    [] fn = "max" -> Ok(Num(MaxSeq(Tail(a), a[1].v)), f)
    [] fn = "pow" -> Pow(a[1].v, a[2].v, f)
    [] fn = "len" -> Ok(Num(S * Len(a[1].v)), f)
    [] fn = "range" ->
        IF Len(a) > 3 \/ (Len(a) = 3 /\ a[3].v = 0) THEN Fail(f)
        ELSE LET z(i) == FloorDiv(a[i].v, S)
             IN IF \E i \in 1..Len(a) : AbsI(a[i].v) > 400 * S THEN Unk(f)
                ELSE IF Len(a) = 1 THEN Ok(Lst(RangeSeq(0, z(1), 1)), f)
                ELSE IF Len(a) = 2 THEN Ok(Lst(RangeSeq(z(1), z(2), 1)), f)
                ELSE Ok(Lst(RangeSeq(z(1), z(2), z(3))), f)
    [] fn = "concat" -> Ok(Lst(a[1].v \o a[2].v), f)
    [] fn = "reverse" -> Ok(Lst(Rev(a[1].v)), f)
    [] fn = "flatten" -> Ok(Lst(Concat(a[1].v)), f)
    [] fn = "sum" -> FoldAdd(a[1].v, f)
    [] fn = "product" -> FoldMul(a[1].v, S, f)
    [] fn = "any_true" -> Ok(Boo(\E i \in 1..Len(a[1].v) : a[1].v[i].v), f)
    [] fn = "all_true" -> Ok(Boo(\A i \in 1..Len(a[1].v) : a[1].v[i].v), f)
    [] fn = "min_of" -> IF a[1].v = <<>> THEN Fail(f) ELSE Ok(Num(MinSeq(a[1].v, a[1].v[1].v)), f)
    [] fn = "max_of" -> IF a[1].v = <<>> THEN Fail(f) ELSE Ok(Num(MaxSeq(a[1].v, a[1].v[1].v)), f)
    [] OTHER -> Fail(f)

NoEmit == [has |-> FALSE]
BR(env, f, x, ret, em) == [env |-> env, f |-> f, x |-> x, ret |-> ret, em |-> em]

MaxList == 100000      \* elements of a comprehension
MaxClauses == 4

RECURSIVE Ev(_, _, _, _, _), EvSeq(_, _, _, _, _, _), Clauses(_, _, _, _, _, _), Loop(_, _, _, _, _, _, _, _),
          Conds(_, _, _, _, _, _), Call(_, _, _, _, _),
          Block(_, _, _, _, _, _), Stmt(_, _, _, _, _), ForLoop(_, _, _, _, _, _, _), Arms(_, _, _, _, _, _),
          NamedArgs(_, _, _, _, _, _, _)

(* g: [m |-> commands, lim |-> depth limit]; d: current call depth; f: failures so far *)
Ev(g, env, d, e, f) ==
  CASE e.k = "num" -> Ok(Num(e.v), f)
    [] e.k = "bool" -> Ok(Boo(e.v), f)
    [] e.k = "str" -> Ok(Str(e.v), f)
    [] e.k = "var" -> IF Has(env, e.n) THEN Ok(Get(env, e.n), f) ELSE Fail(f)
    [] e.k = "bin" ->
        LET l == Ev(g, env, d, e.l, f)
        IN IF l.x # "" THEN l
           ELSE IF e.op \in {"and", "or"} /\ l.v.t # "bool" THEN Unk(l.f)
           ELSE IF e.op = "and" /\ ~l.v.v THEN Ok(Boo(FALSE), l.f)
           ELSE IF e.op = "or" /\ l.v.v THEN Ok(Boo(TRUE), l.f)
           ELSE LET r == Ev(g, env, d, e.r, l.f)
                IN IF r.x # "" THEN r
                   ELSE IF e.op \in {"and", "or"} THEN (IF r.v.t = "bool" THEN Ok(Boo(r.v.v), r.f) ELSE Unk(r.f))
                   ELSE BinOp(e.op, l.v, r.v, r.f)
    [] e.k = "un" ->
        LET a == Ev(g, env, d, e.e, f)
        IN IF a.x # "" THEN a ELSE IF a.v.t # (IF e.op = "not" THEN "bool" ELSE "num") THEN Unk(a.f) ELSE IF e.op = "not" THEN Ok(Boo(~a.v.v), a.f) ELSE Ok(Num(-a.v.v), a.f)
    [] e.k = "idx" ->
        LET a == Ev(g, env, d, e.e, f)
        IN IF a.x # "" THEN a
           ELSE LET i == Ev(g, env, d, e.i, a.f)
                IN IF i.x # "" THEN i
                   ELSE IF a.v.t # "list" \/ i.v.t # "num" THEN Unk(i.f)
                   ELSE IF i.v.v < 0 THEN Unk(i.f)
                   ELSE IF i.v.v \div S >= Len(a.v.v) THEN Fail(i.f)
                   ELSE Ok(a.v.v[i.v.v \div S + 1], i.f)
    [] e.k = "list" ->
        LET s == EvSeq(g, env, d, e.es, 1, f)
        IN IF s.x # "" THEN s ELSE Ok(Lst(s.v), s.f)
    [] e.k = "range" ->
        LET a == Ev(g, env, d, e.a, f)
        IN IF a.x # "" THEN a
           ELSE LET b == Ev(g, env, d, e.b, a.f)
                IN IF b.x # "" THEN b
                   ELSE IF a.v.t # "num" \/ b.v.t # "num" THEN Unk(b.f)
                   ELSE IF AbsI(a.v.v) > 400 * S \/ AbsI(b.v.v) > 400 * S THEN Unk(b.f)
                   ELSE Ok(Lst(RangeSeq(a.v.v \div S, b.v.v \div S, 1)), b.f)
    [] e.k = "tern" ->
        LET c == Ev(g, env, d, e.c, f)
        IN IF c.x # "" THEN c ELSE IF c.v.t # "bool" THEN Unk(c.f) ELSE IF c.v.v THEN Ev(g, env, d, e.t, c.f) ELSE Ev(g, env, d, e.f, c.f)
    [] e.k = "comp" ->
        IF Len(e.cl) > MaxClauses THEN Fail(f)
        ELSE LET r == Clauses(g, env, d, e, 1, [v |-> <<>>, f |-> f, x |-> ""])
             IN IF r.x # "" THEN r ELSE Ok(Lst(r.v), r.f)
    [] e.k = "call" ->
        LET a == EvSeq(g, env, d, e.args, 1, f)
        IN IF a.x # "" THEN a
           ELSE IF e.f \in CmdNames(g.m) THEN
             LET c == Cmd(g.m, e.f)
                 n == NamedArgs(g, env, d, c, e.named, Len(a.v) + 1, a)
             IN IF n.x # "" THEN n ELSE Call(g, d, c, n.v, n.f)
           ELSE IF e.f \in DOMAIN Builtins THEN CallB(e.f, a.v, a.f) ELSE Fail(a.f)
(* named arguments, in parameter order, after the positional ones; parameters  *)
(* that are not given take their defaults                                      *)
NamedArgs(g, env, d, c, named, i, a) ==
  IF a.x # "" \/ i > Len(c.params) THEN a
  ELSE LET p == c.params[i]
           js == { j \in 1..Len(named) : named[j].n = p.n }
           r == IF js # {} THEN Ev(g, env, d, named[CHOOSE j \in js : TRUE].e, a.f)
                ELSE IF p.has THEN Ev(g, <<Empty>>, d, p.d, a.f) ELSE Fail(a.f)
       IN IF r.x # "" THEN r
          ELSE NamedArgs(g, env, d, c, named, i + 1, [v |-> Append(a.v, r.v), f |-> r.f, x |-> ""])
EvSeq(g, env, d, es, i, f) ==
  IF i > Len(es) THEN [v |-> <<>>, f |-> f, x |-> ""]
  ELSE LET a == Ev(g, env, d, es[i], f)
       IN IF a.x # "" THEN a
          ELSE LET r == EvSeq(g, env, d, es, i + 1, a.f)
               IN IF r.x # "" THEN r ELSE [v |-> <<a.v>> \o r.v, f |-> r.f, x |-> ""]
\* comprehension: nested loops, each clause in a scope of its own
Clauses(g, env, d, e, ci, acc) ==
  IF ci > Len(e.cl)
  THEN IF Len(acc.v) >= MaxList THEN Fail(acc.f)
       ELSE LET r == Ev(g, env, d, e.e, acc.f)
            IN IF r.x # "" THEN r ELSE [v |-> Append(acc.v, r.v), f |-> r.f, x |-> ""]
  ELSE LET it == Ev(g, env, d, e.cl[ci].it, acc.f)
       IN IF it.x # "" THEN it
          ELSE IF it.v.t # "list" THEN Unk(it.f)
          ELSE Loop(g, Push(env), d, e, ci, it.v.v, 1, [acc EXCEPT !.f = it.f])
Loop(g, env, d, e, ci, items, i, acc) ==
  IF i > Len(items) \/ acc.x # "" THEN acc
  ELSE LET env2 == Bind(env, e.cl[ci].v, items[i])
           c == Conds(g, env2, d, e.cl[ci].conds, 1, acc.f)
       IN IF c.x # "" THEN c
          ELSE LET a2 == IF c.v.v THEN Clauses(g, env2, d, e, ci + 1, [acc EXCEPT !.f = c.f])
                         ELSE [acc EXCEPT !.f = c.f]
               IN IF a2.x # "" THEN a2 ELSE Loop(g, env, d, e, ci, items, i + 1, a2)
Conds(g, env, d, cs, j, f) ==
  IF j > Len(cs) THEN Ok(Boo(TRUE), f)
  ELSE LET c == Ev(g, env, d, cs[j], f)
       IN IF c.x # "" THEN c ELSE IF c.v.t # "bool" THEN Unk(c.f) ELSE IF c.v.v THEN Conds(g, env, d, cs, j + 1, c.f) ELSE Ok(Boo(FALSE), c.f)

(* a command call: fresh scope, the emitted value is the value of the call,    *)
(* violated requirements are added to the caller's                             *)
Call(g, d, c, args, f) ==
  IF d + 1 > g.lim THEN Fail(f)
  ELSE IF Len(args) > Len(c.params) THEN Fail(f)
  ELSE LET scope == [n \in ParamNames(c) |-> args[ParamAt(c, n)]]
           r == Block(g, <<scope>>, d + 1, c.body, 1, f)
       IN IF r.x # "" THEN [v |-> Boo(FALSE), f |-> r.f, x |-> r.x]
          ELSE IF ~r.em.has THEN Fail(r.f)
          ELSE Ok(r.em.v, r.f)


Block(g, env, d, b, i, f) ==
  IF i > Len(b) THEN BR(env, f, "", FALSE, NoEmit)
  ELSE LET r == Stmt(g, env, d, b[i], f)
       IN IF r.x # "" \/ r.ret THEN r ELSE Block(g, r.env, d, b, i + 1, r.f)
Stop(env, r) == BR(env, r.f, r.x, FALSE, NoEmit)
Stmt(g, env, d, s, f) ==
  CASE s.k \in {"def", "set"} ->
        LET r == Ev(g, env, d, s.e, f)
        IN IF r.x # "" THEN Stop(env, r)
           ELSE BR(IF s.k = "set" /\ Has(env, s.n) THEN Upd(env, s.n, r.v) ELSE Bind(env, s.n, r.v),
                   r.f, "", FALSE, NoEmit)
    [] s.k = "req" ->
        LET r == Ev(g, env, d, s.c, f)
        IN IF r.x # "" THEN Stop(env, r)
           ELSE IF r.v.t # "bool" THEN Stop(env, Unk(r.f))
           ELSE IF r.v.v THEN BR(env, r.f, "", FALSE, NoEmit)
           ELSE IF ~s.hasmsg THEN BR(env, Append(r.f, "Constraint violated"), "", FALSE, NoEmit)
           ELSE LET m == Ev(g, env, d, s.m, r.f)
                IN IF m.x # "" THEN Stop(env, m) ELSE BR(env, Append(m.f, m.v.v), "", FALSE, NoEmit)
    [] s.k = "emit" ->
        LET r == Ev(g, env, d, s.e, f)
        IN IF r.x # "" THEN Stop(env, r)
           ELSE LET ms == EvSeq(g, env, d, [j \in 1..Len(s.meta) |-> s.meta[j].e], 1, r.f)
                IN IF ms.x # "" THEN Stop(env, ms)
                   ELSE BR(env, ms.f, "", TRUE,
                           [has |-> TRUE, v |-> r.v,
                            meta |-> [j \in 1..Len(s.meta) |-> [n |-> s.meta[j].n, v |-> ms.v[j]]]])
    [] s.k = "for" ->
        LET it == Ev(g, env, d, s.it, f)
        IN IF it.x # "" THEN Stop(env, it) ELSE IF it.v.t # "list" THEN Stop(env, Unk(it.f)) ELSE ForLoop(g, env, d, s, it.v.v, 1, it.f)
    [] s.k = "if" -> Arms(g, env, d, s, 1, f)
    [] s.k = "expr" ->
        LET r == Ev(g, env, d, s.e, f) IN Stop(env, r)
    [] s.k = "ret" -> BR(env, f, "", TRUE, NoEmit)
    [] OTHER -> BR(env, f, "", FALSE, NoEmit)
ForLoop(g, env, d, s, items, i, f) ==
  IF i > Len(items) THEN BR(env, f, "", FALSE, NoEmit)
  ELSE LET r == Block(g, Bind(Push(env), s.v, items[i]), d, s.body, 1, f)
       IN IF r.x # "" \/ r.ret THEN [r EXCEPT !.env = env]
          ELSE ForLoop(g, Pop(r.env), d, s, items, i + 1, r.f)
Arms(g, env, d, s, i, f) ==
  IF i > Len(s.arms)
  THEN IF ~s.hasels THEN BR(env, f, "", FALSE, NoEmit)
       ELSE LET r == Block(g, Push(env), d, s.els, 1, f)
            IN [r EXCEPT !.env = Pop(r.env)]
  ELSE LET c == Ev(g, env, d, s.arms[i].c, f)
       IN IF c.x # "" THEN Stop(env, c)
          ELSE IF c.v.t # "bool" THEN Stop(env, Unk(c.f))
          ELSE IF c.v.v
          THEN LET r == Block(g, Push(env), d, s.arms[i].body, 1, c.f)
               IN [r EXCEPT !.env = Pop(r.env)]
          ELSE Arms(g, env, d, s, i + 1, c.f)

(* running a command of a module with given parameters *)
HasArg(args, n) == \E j \in 1..Len(args) : args[j].n = n
ArgOf(args, n) == args[CHOOSE j \in 1..Len(args) : args[j].n = n].v
RECURSIVE TopScope(_, _, _, _, _)
TopScope(g, c, args, i, acc) ==
  IF i > Len(c.params) \/ acc.x # "" THEN acc
  ELSE LET p == c.params[i]
           r == IF HasArg(args, p.n) THEN Ok(ArgOf(args, p.n), acc.f)
                ELSE IF p.has THEN Ev(g, <<Empty>>, 0, p.d, acc.f) ELSE Ok(Boo(FALSE), acc.f)
       IN TopScope(g, c, args, i + 1,
                   [v |-> IF HasArg(args, p.n) \/ p.has THEN (p.n :> r.v) @@ acc.v ELSE acc.v,
                    f |-> r.f, x |-> r.x])
Run(m, op) ==
  IF op.cmd \notin CmdNames(m) THEN [res |-> "error"]
  ELSE LET c == Cmd(m, op.cmd)
           g == [m |-> m, lim |-> op.lim]
           sc == TopScope(g, c, op.args, 1, [v |-> Empty, f |-> <<>>, x |-> ""])
           r == IF sc.x # "" THEN Stop(<<Empty>>, sc) ELSE Block(g, <<sc.v>>, 0, c.body, 1, sc.f)
       IN IF r.x = "any" THEN [any |-> TRUE]
          ELSE IF r.x = "error" THEN [res |-> "error"]
          ELSE IF r.f # <<>> THEN [res |-> "require", fails |-> r.f]
          ELSE IF ~r.em.has THEN [res |-> "noemit"]
          ELSE [res |-> "ok", value |-> r.em.v, meta |-> r.em.meta]

(* the system: load a module, then run its commands; nothing a run does is     *)
(* visible to a later run                                                      *)
DInit(i) == [mod |-> <<>>, ok |-> FALSE]
DApply(st, op) ==
  CASE op.k = "load" ->
        LET ok == ModuleOk(op.mod)
        IN [st |-> [mod |-> op.mod, ok |-> ok],
            obs |-> [res |-> IF ok THEN "ok" ELSE "rejected"]]
    [] op.k = "run" ->
        [st |-> st, obs |-> IF st.ok THEN Run(st.mod, op) ELSE [res |-> "rejected"]]
    [] op.k = "bigcomp" ->
        \* size laws of comprehensions, in closed form: sizes of nested ranges
        LET RECURSIVE Prod(_)
            Prod(i) == IF i > Len(op.sizes) THEN 1 ELSE op.sizes[i] * Prod(i + 1)
        IN [st |-> st,
            obs |-> IF Len(op.sizes) > MaxClauses \/ Prod(1) > MaxList THEN [res |-> "error"]
                    ELSE [res |-> "ok", value |-> Num(S * Prod(1)), meta |-> <<>>]]
DGood(st) == TRUE
=============================================================================
