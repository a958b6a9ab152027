---- MODULE DocTrace ----
EXTENDS Doc, Json, IOUtils
TraceData == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, pos, st, ok
INSTANCE TraceBase WITH ApplyOp <- DocApply, InitFor <- DocInit, Good <- DocGood, Traces <- TraceData
====
