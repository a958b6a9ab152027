---- MODULE DslTrace ----
EXTENDS Dsl, Json, IOUtils
TraceData == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, pos, st, ok
INSTANCE TraceBase WITH ApplyOp <- DApply, InitFor <- DInit, Good <- DGood, Traces <- TraceData
====
