---- MODULE ProvTrace ----
EXTENDS Prov, Json, IOUtils
TraceData == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, pos, st, ok
INSTANCE TraceBase WITH ApplyOp <- PvApply, InitFor <- PvInit, Good <- PvGood, Traces <- TraceData
====
