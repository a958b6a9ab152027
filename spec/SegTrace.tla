---- MODULE SegTrace ----
EXTENDS Seg, Json, IOUtils
TraceData == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, pos, st, ok
INSTANCE TraceBase WITH ApplyOp <- EApply, InitFor <- EInit, Good <- EGood, Traces <- TraceData
====
