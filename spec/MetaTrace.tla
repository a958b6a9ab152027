---- MODULE MetaTrace ----
EXTENDS Meta, Json, IOUtils
TraceData == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, pos, st, ok
MtGood(s) == TRUE
INSTANCE TraceBase WITH ApplyOp <- MtApply, InitFor <- MtInit, Good <- MtGood, Traces <- TraceData
====
