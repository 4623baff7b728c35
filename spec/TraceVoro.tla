------------------------------ MODULE TraceVoro ------------------------------
EXTENDS Voro, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<sites, tid, l>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ sites = <<>>
GeoCheck(e) == GeoOK(sites, e, Traces[tid].b, Traces[tid].lo = 1)
Ev == Traces[tid].ev[l]
Step ==
  /\ l <= Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET e == Ev IN
     \/ e.a = "P" /\ e.r = Len(sites) /\ sites' = Append(sites, <<1>> \o e.s)
     \/ e.a = "S" /\ e.r = Len(sites) /\ sites' = Append(sites, <<2>> \o e.s)
     \/ e.a = "Clear" /\ sites' = <<>>
     \/ e.a = "Build" /\ e.col = 1 /\ (TopoOK(sites, e) = TRUE) /\ (GeoCheck(e) = TRUE) /\ UNCHANGED sites
Done == l > Len(Traces[tid].ev) /\ UNCHANGED tvars
Next == Step \/ Done
Spec == Init /\ [][Next]_tvars
View == <<tid, l>>
=============================================================================
