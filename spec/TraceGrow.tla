----------------------------- MODULE TraceGrow ------------------------------
EXTENDS Grow, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<shape, tid, l>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ shape = <<>>
Ev == Traces[tid].ev[l]
Step ==
  /\ l <= Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET e == Ev IN
     \/ e.a = "Load" /\ shape' = e.s
     \/ e.a = "Round" /\ (Round(e.r, e.n, e.p, e.in) = TRUE) /\ UNCHANGED shape
     \/ e.a = "Miter" /\ (Miter(e.r, e.p, e.in) = TRUE) /\ UNCHANGED shape
Done == l > Len(Traces[tid].ev) /\ UNCHANGED tvars
Next == Step \/ Done
Spec == Init /\ [][Next]_tvars
View == <<tid, l>>
=============================================================================
