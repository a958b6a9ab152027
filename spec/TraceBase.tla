------------------------------ MODULE TraceBase ------------------------------
(* Generic trace validator.  A trace recorded from the real implementation is *)
(* a sequence of [op, obs] pairs; the specification (ApplyOp, InitFor) is a   *)
(* deterministic labelled transition system: from a spec state and an op it   *)
(* yields the next spec state and the observation the implementation must     *)
(* have made.  Every trace of the batch is an initial state; each TLC step    *)
(* consumes one event.  A disagreement is written to VF_BAD (never aborts the *)
(* run) with the trace id, position, expected and actual observation, and the *)
(* trace stops there: the verdict is total.                                   *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Traces, ApplyOp(_, _), InitFor(_), Good(_)
VARIABLES tid, pos, st, ok

TInit == /\ tid \in 1..Len(Traces)
         /\ pos = 1
         /\ ok = TRUE
         /\ st = InitFor(Traces[tid].init)

\* a = a forces TLC to normalise nested record field order before printing;
\* comparing printed forms keeps the verdict total on ill-typed observations
Same(a, b) == a = a /\ b = b /\ ToString(a) = ToString(b)

Differs(exp, got) == { f \in DOMAIN exp \cup DOMAIN got :
                         ~ (f \in DOMAIN exp /\ f \in DOMAIN got
                            /\ Same(exp[f], got[f])) }

TNext ==
  /\ ok
  /\ pos <= Len(Traces[tid].ops)
  /\ LET e == Traces[tid].ops[pos]
         r == ApplyOp(st, e.op)
         \* "any": the specification says nothing about this observation
         d == IF "any" \in DOMAIN r.obs THEN {} ELSE Differs(r.obs, e.obs)
     IN IF d = {} /\ Good(r.st)
        THEN /\ IF "any" \in DOMAIN r.obs
                THEN CSVWrite("%1$s %2$s", <<Traces[tid].id, pos>>, IOEnv.VF_SKIP) ELSE TRUE
             /\ st' = r.st /\ pos' = pos + 1 /\ ok' = TRUE
        ELSE /\ CSVWrite("%1$s", <<ToJson([trace |-> Traces[tid].id, pos |-> pos,
                    clause |-> d, inv |-> Good(r.st), expected |-> r.obs])>>, IOEnv.VF_BAD)
             /\ ok' = FALSE /\ UNCHANGED <<st, pos>>
  /\ UNCHANGED tid

(* liveness of the validation itself: every event is consumed or reported *)
TSpec == TInit /\ [][TNext]_<<tid, pos, st, ok>>
=============================================================================
