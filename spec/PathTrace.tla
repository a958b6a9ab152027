---- MODULE PathTrace ----
EXTENDS Path, Json, IOUtils
TraceData == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, pos, st, ok
INSTANCE TraceBase WITH ApplyOp <- PApply, InitFor <- PInit, Good <- PGood, Traces <- TraceData
====
