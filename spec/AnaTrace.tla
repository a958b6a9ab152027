---- MODULE AnaTrace ----
EXTENDS Ana, Json, IOUtils
TraceData == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, pos, st, ok
INSTANCE TraceBase WITH ApplyOp <- AApply, InitFor <- AInit, Good <- AGood, Traces <- TraceData
====
