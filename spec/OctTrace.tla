---- MODULE OctTrace ----
EXTENDS Oct, Json, IOUtils
TraceData == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, pos, st, ok
INSTANCE TraceBase WITH ApplyOp <- GApply, InitFor <- GInit, Good <- GGood, Traces <- TraceData
====
