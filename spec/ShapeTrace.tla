---- MODULE ShapeTrace ----
EXTENDS Shape, Json, IOUtils
TraceData == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, pos, st, ok
INSTANCE TraceBase WITH ApplyOp <- SApply, InitFor <- SInit, Good <- SGood, Traces <- TraceData
====
