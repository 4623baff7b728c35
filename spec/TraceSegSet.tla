----------------------------- MODULE TraceSegSet -----------------------------
EXTENDS SegSet, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<grid, segs, tid, l>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ grid = Traces[tid].grid /\ segs = <<>>
Ev == Traces[tid].ev[l]
Step ==
  /\ l <= Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET e == Ev IN
     \/ e.a = "Load"  /\ Load(e.s)
     \/ e.a = "Split" /\ Split(e.o, e.id, e.o2)
     \/ e.a = "Env"   /\ (EnvelopeOK(e.res, e.v) = TRUE) /\ UNCHANGED svars
Done == l > Len(Traces[tid].ev) /\ UNCHANGED tvars
Next == Step \/ Done
Spec == Init /\ [][Next]_tvars
View == <<tid, l>>
=============================================================================
