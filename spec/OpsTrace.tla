---- MODULE OpsTrace ----
EXTENDS Ops, Json, IOUtils
TraceData == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, pos, st, ok
INSTANCE TraceBase WITH ApplyOp <- OpsApply, InitFor <- OpsInit, Good <- OpsGood, Traces <- TraceData
====
