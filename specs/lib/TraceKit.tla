------------------------------ MODULE TraceKit ------------------------------
(* Shared frame of every trace specification.  A trace file holds one       *)
(* recorded scenario per line: [id, ..., ev: sequence of events].  Each      *)
(* trace is an independent initial state (tid); pos is the next event.       *)
(* Register tid remembers how far the trace got.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
NTraces == Len(Traces)

ASSUME \A i \in 1 .. NTraces : TLCSet(i, 0)

VARIABLES tid, pos

TKInit == tid \in 1 .. NTraces /\ pos = 1
Tr == Traces[tid]
More == pos <= Len(Tr.ev)
E == Tr.ev[pos]
Advance == More /\ pos' = pos + 1 /\ UNCHANGED tid

\* state constraint: records progress, prunes nothing
Progress == TLCSet(tid, IF TLCGet(tid) < pos THEN pos ELSE TLCGet(tid))

\* evaluated once at the end: prints what was and was not explained
Report ==
  LET Bad == { i \in 1 .. NTraces : TLCGet(i) # Len(Traces[i].ev) + 1 } IN
  /\ PrintT(<<"VFDONE", NTraces, Cardinality(Bad)>>)
  /\ \A i \in Bad : PrintT(<<"VFREJECT", i, TLCGet(i)>>)
=============================================================================
