---- MODULE BrepTrace ----
EXTENDS Brep, Json, IOUtils
TraceData == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, pos, st, ok
INSTANCE TraceBase WITH ApplyOp <- GApply, InitFor <- GInit, Good <- GGood, Traces <- TraceData
====
