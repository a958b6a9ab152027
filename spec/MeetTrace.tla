---- MODULE MeetTrace ----
EXTENDS Meet, Json, IOUtils
TraceData == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, pos, st, ok
INSTANCE TraceBase WITH ApplyOp <- MtApply, InitFor <- MtInit, Good <- MtGood, Traces <- TraceData
====
