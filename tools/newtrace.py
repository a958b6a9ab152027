"""python3 tools/newtrace.py Mod Prefix : writes spec/ModTrace.tla binding <Prefix>Apply/Init/Good."""
import sys, os
m, p = sys.argv[1:3]
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(R + '/spec/%sTrace.tla' % m, 'w').write('''---- MODULE %sTrace ----
EXTENDS %s, Json, IOUtils
TraceData == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, pos, st, ok
INSTANCE TraceBase WITH ApplyOp <- %sApply, InitFor <- %sInit, Good <- %sGood, Traces <- TraceData
====
''' % (m, m, p, p, p))
