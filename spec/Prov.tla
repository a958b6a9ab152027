------------------------------- MODULE Prov -------------------------------
(* Provenance of a DSL run.  A text is a sequence of characters: 0,1,.. are    *)
(* visible ones, 20 space, 21 tab, 22 newline, 23 carriage return.  Two texts  *)
(* carry the same signature exactly when they agree up to surrounding white    *)
(* space and the spelling of line ends.  A run records the module, the command *)
(* and the parameters it was given.                                            *)
EXTENDS Integers, Sequences, TLC
WS == {20, 21, 22, 23}
RECURSIVE LStrip(_), RStrip(_), Eol(_)
LStrip(t) == IF t # <<>> /\ t[1] \in WS THEN LStrip(Tail(t)) ELSE t
RStrip(t) == IF t # <<>> /\ t[Len(t)] \in WS THEN RStrip(SubSeq(t, 1, Len(t) - 1)) ELSE t
Eol(t) == IF t = <<>> THEN <<>>
          ELSE IF t[1] # 23 THEN <<t[1]>> \o Eol(Tail(t))
          ELSE IF Len(t) > 1 /\ t[2] = 22 THEN <<22>> \o Eol(Tail(Tail(t)))
          ELSE <<22>> \o Eol(Tail(t))
Canon(t) == Eol(RStrip(LStrip(t)))

(* st: signatures taken so far, as the canonical texts they stand for *)
PvInit(i) == <<>>
PvApply(st, op) ==
  CASE op.k = "sign" ->
        LET c == Canon(op.text)
        IN [st |-> Append(st, c),
            obs |-> [res |-> "ok", same |-> [j \in 1..Len(st) |-> st[j] = c]]]
    [] op.k = "verify" ->
        [st |-> st, obs |-> [res |-> "ok", ok |-> [j \in 1..Len(st) |-> st[j] = Canon(op.text)]]]
    [] op.k = "exec" ->
        \* the run's signature joins the others: its source is a visible text of its own
        [st |-> Append(st, Canon(op.text)),
         obs |-> [res |-> IF op.fails THEN "require" ELSE "ok", mod |-> op.mod, cmd |-> op.cmd, params |-> op.params,
                  back |-> TRUE, same |-> [j \in 1..Len(st) |-> st[j] = Canon(op.text)]]]
PvGood(st) == TRUE
=============================================================================
