--------------------------- MODULE TraceManhMetric ---------------------------
EXTENDS ManhMetric, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<n, cnt, tid, l>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ n = Traces[tid].n
        /\ cnt = [r \in 1..Traces[tid].K |-> ZeroCnt(Traces[tid].n)]
Ev == Traces[tid].ev[l]
Observed(e, r) == ObsOK(n, e.o, Bit(cnt'[r])) = TRUE
(* the region of a recorded object before and after; Manhattan walks allowed  *)
ObjPts(v) == [i \in 1..NV(v) |-> <<PX(v, i) - M, PY(v, i) - M>>]
Step ==
  /\ l <= Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET e == Ev IN
     \/ e.a = "Ins"    /\ Insert(e.r, e.s, 1)   /\ Observed(e, e.r)
     \/ e.a = "Set"    /\ SetTo(e.r, e.x)       /\ Observed(e, e.r)
     \/ e.a = "Bloat"  /\ DoBloat(e.r, e.d)     /\ Observed(e, e.r)
     \/ e.a = "Shrink" /\ DoShrink(e.r, e.d)    /\ Observed(e, e.r)
     \/ e.a = "Resize" /\ DoResize(e.r, e.d)    /\ Observed(e, e.r)
     \/ e.a = "GrowAnd" /\ DoGrowAnd(e.r, e.d)  /\ Observed(e, e.r)
     \/ e.a = "Map"    /\ DoMap(e.r, e.q)       /\ Observed(e, e.r)
     \/ e.a = "Squeeze" /\ DoSqueeze(e.r, e.v)  /\ Observed(e, e.r)
     \/ e.a = "Keep"   /\ DoKeep(e.r, e.v)      /\ Observed(e, e.r)
     \/ e.a = "Bin"    /\ Boolean(e.r, e.op, e.x, e.y) /\ Observed(e, e.r)
     \/ e.a = "Eq"     /\ ((e.res = 1) = (RegionOf(e.x) = RegionOf(e.y))) = TRUE /\ UNCHANGED mvars
     \/ e.a = "Size"   /\ (e.res = CanonSize(RegionOf(e.x))) = TRUE /\ UNCHANGED mvars
  (* one geometry object and its image *)
     \/ e.a = "MapObj" /\ (/\ Bit(ShapeCnt(n, e.y, cnt)) = PathMap(e.q, Bit(ShapeCnt(n, e.x, cnt)))) = TRUE /\ UNCHANGED mvars
     \/ e.a = "MapPts" /\ (\A i \in 1..NV(e.p) : PathPt(e.q, <<PX(e.p, i), PY(e.p, i)>>) = <<PX(e.o, i), PY(e.o, i)>>) = TRUE /\ UNCHANGED mvars
     \/ e.a = "RndPts" /\ (\A i \in 1..NV(e.p) : PX(e.o, i) = RoundTo(PX(e.p, i), e.v[1], e.v[2]) /\ PY(e.o, i) = RoundTo(PY(e.p, i), e.v[3], e.v[4])) = TRUE /\ UNCHANGED mvars
Done == l > Len(Traces[tid].ev) /\ UNCHANGED tvars
Next == Step \/ Done
Spec == Init /\ [][Next]_tvars
View == <<tid, l>>
=============================================================================
