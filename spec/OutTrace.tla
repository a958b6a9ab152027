---- MODULE OutTrace ----
EXTENDS Out, Json, IOUtils
TraceData == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, pos, st, ok
INSTANCE TraceBase WITH ApplyOp <- OApply, InitFor <- OInit, Good <- OGood, Traces <- TraceData
====
