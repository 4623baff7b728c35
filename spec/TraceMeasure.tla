---------------------------- MODULE TraceMeasure ----------------------------
EXTENDS Measure, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<shape, tid, l>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ shape = <<>>
Ev == Traces[tid].ev[l]
Step ==
  /\ l <= Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET e == Ev IN
     \/ e.a = "Load" /\ shape' = e.s
     \/ e.a = "Ask" /\ (Ask(e.op, e.p, e.t, e.w, e.r) = TRUE) /\ UNCHANGED shape
     \/ e.a = "Has" /\ (\A i \in 1..Len(e.p) : (E01(Has(e.p[i], TRUE)) = e.c[i]) /\ (E01(Has(e.p[i], FALSE)) = e.o[i])) /\ UNCHANGED shape
     \/ e.a = "Do" /\ (Do(e.op, e.v, e.o, e.x, e.n) = TRUE) /\ shape' = e.n
     \/ e.a = "Snap" /\ (Snap(e.f, e.n) = TRUE) /\ shape' = e.n
Done == l > Len(Traces[tid].ev) /\ UNCHANGED tvars
Next == Step \/ Done
Spec == Init /\ [][Next]_tvars
View == <<tid, l>>
=============================================================================
