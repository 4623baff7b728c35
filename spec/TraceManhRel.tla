----------------------------- MODULE TraceManhRel -----------------------------
EXTENDS ManhRel, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<n, cnt, tid, l>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ n = Traces[tid].n
        /\ cnt = [r \in 1..Traces[tid].K |-> ZeroCnt(Traces[tid].n)]
Ev == Traces[tid].ev[l]
Observed(e, r) == ObsOK(n, e.o, Bit(cnt'[r])) = TRUE
Edges(e) == {<<e.g[i][1], e.g[i][2]>> : i \in 1..Len(e.g)}
Step ==
  /\ l <= Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET e == Ev IN
     \/ e.a = "Set"   /\ SetTo(e.r, e.x) /\ Observed(e, e.r)
     \/ e.a = "Ins"   /\ Insert(e.r, e.s, 1) /\ Observed(e, e.r)
     \/ e.a = "Interact" /\ Put(e.r, Interact(Region(e.r), RegionOf(e.y))) /\ Observed(e, e.r)
     \/ e.a = "Size"  /\ (e.res = CanonSize(RegionOf(e.x))) = TRUE /\ UNCHANGED mvars
     \/ e.a = "Conn"  /\ (Edges(e) = ConnGraph([i \in 1..Len(e.s) |-> Bit(ShapeCnt(n, e.s[i], cnt))])) = TRUE /\ UNCHANGED mvars
     \/ e.a = "Merge" /\ MergeOK(e.ins, e.out) = TRUE /\ UNCHANGED mvars
Done == l > Len(Traces[tid].ev) /\ UNCHANGED tvars
Next == Step \/ Done
Spec == Init /\ [][Next]_tvars
View == <<tid, l>>
=============================================================================
