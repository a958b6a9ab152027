---- MODULE VoxTrace ----
EXTENDS Vox, Json, IOUtils
TraceData == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, pos, st, ok
INSTANCE TraceBase WITH ApplyOp <- VApply, InitFor <- VInit, Good <- VGood, Traces <- TraceData
====
