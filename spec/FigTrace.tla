---- MODULE FigTrace ----
EXTENDS Fig, Json, IOUtils
TraceData == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, pos, st, ok
INSTANCE TraceBase WITH ApplyOp <- FApply, InitFor <- FInit, Good <- FGood, Traces <- TraceData
====
