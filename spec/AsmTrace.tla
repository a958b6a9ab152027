---- MODULE AsmTrace ----
EXTENDS Asm, Json, IOUtils
TraceData == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, pos, st, ok
INSTANCE TraceBase WITH ApplyOp <- AApply, InitFor <- AInit, Good <- AGood, Traces <- TraceData
====
