---- MODULE PkgTrace ----
EXTENDS Pkg, Json, IOUtils
TraceData == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, pos, st, ok
INSTANCE TraceBase WITH ApplyOp <- PkApply, InitFor <- PkInit, Good <- PkGood, Traces <- TraceData
====
