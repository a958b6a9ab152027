---- MODULE MateTrace ----
EXTENDS Mate, Json, IOUtils
TraceData == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, pos, st, ok
INSTANCE TraceBase WITH ApplyOp <- TApply, InitFor <- TInit0, Good <- TGood, Traces <- TraceData
====
