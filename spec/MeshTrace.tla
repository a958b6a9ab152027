---- MODULE MeshTrace ----
EXTENDS Mesh, Json, IOUtils
TraceData == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, pos, st, ok
INSTANCE TraceBase WITH ApplyOp <- MeApply, InitFor <- MeInit, Good <- MeGood, Traces <- TraceData
====
