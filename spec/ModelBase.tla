------------------------------ MODULE ModelBase ------------------------------
(* Generic bounded model: explores ApplyOp from InitSet with every operation   *)
(* of OpsFor(state), up to Depth events.  Used twice per area:                 *)
(*   MC  : VIEW MView, checks the invariants over all reachable spec states;   *)
(*   GEN : keeps the history and writes each complete behaviour (ops with the  *)
(*         observations the specification demands) to VF_OUT so the driver can *)
(*         replay it in the real implementation.                               *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS ApplyOp(_, _), InitSet, OpsFor(_), InitState(_), Depth
VARIABLES ini, st, hist, done

MInit == /\ ini \in InitSet
         /\ st = InitState(ini)
         /\ hist = <<>>
         /\ done = FALSE

MNext ==
  \/ /\ Len(hist) < Depth
     /\ ~done
     /\ \E op \in OpsFor(st) :
          LET r == ApplyOp(st, op)
          IN /\ st' = r.st
             /\ hist' = Append(hist, [op |-> op, obs |-> r.obs])
     /\ UNCHANGED <<ini, done>>
  \/ /\ Len(hist) = Depth
     /\ ~done
     /\ done' = TRUE
     /\ IF "VF_OUT" \in DOMAIN IOEnv
        THEN CSVWrite("%1$s", <<ToJson([init |-> ini, ops |-> hist])>>, IOEnv.VF_OUT)
        ELSE TRUE
     /\ UNCHANGED <<ini, st, hist>>

MView == <<ini, st, Len(hist)>>
=============================================================================
