---- MODULE KinTrace ----
EXTENDS Kin, Json, IOUtils
TraceData == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, pos, st, ok
INSTANCE TraceBase WITH ApplyOp <- KApply, InitFor <- KInit, Good <- KGood, Traces <- TraceData
====
