----------------------------- MODULE TraceSetGen -----------------------------
EXTENDS SetGen, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<F, M, S, L, far, grid, cnt, tid, l>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ F = Traces[tid].F /\ M = Traces[tid].M /\ S = Traces[tid].S /\ L = Traces[tid].L /\ grid = Traces[tid].grid
        /\ far = FarSet(Traces[tid].S, Traces[tid].F, Traces[tid].L, Traces[tid].far)
        /\ cnt = [r \in 1..Traces[tid].K |-> [k \in 1..Len(Traces[tid].S) |-> 0]]
Ev == Traces[tid].ev[l]
Observed(e, r) == Seen(e.o, Bit(cnt'[r])) = TRUE
Edges(e) == {<<e.g[i][1], e.g[i][2]>> : i \in 1..Len(e.g)}
Q(e, p) == (p = TRUE) /\ UNCHANGED mvars
Step ==
  /\ l <= Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET e == Ev IN
     \/ e.a = "Ins"   /\ Insert(e.r, e.s, IF e.h = 1 THEN -1 ELSE 1) /\ Observed(e, e.r)
     \/ e.a = "Bin"   /\ Boolean(e.r, e.op, e.x, e.y)  /\ Observed(e, e.r)
     \/ e.a = "BinA"  /\ BoolAssign(e.r, e.op, e.y)    /\ Observed(e, e.r)
     \/ e.a = "Set"   /\ SetTo(e.r, e.x)               /\ Observed(e, e.r)
     \/ e.a = "Asg"   /\ Evaluate(e.r, e.x)            /\ Observed(e, e.r)
     \/ e.a = "Copy"  /\ Copy(e.r, e.s)                /\ Observed(e, e.r)
     \/ e.a = "Clear" /\ Clear(e.r)                    /\ Observed(e, e.r)
     \/ e.a = "Clean" /\ Clean(e.r)                    /\ Observed(e, e.r)
     \/ e.a = "Form"  /\ Q(e, FormOK(e.o, RegionOf(e.x)))
     \/ e.a = "Traps" /\ Q(e, TrapOK(e.o, RegionOf(e.x), e.ori = 1))
     \/ e.a = "Eq"    /\ Q(e, (e.res = 1) = (RegionOf(e.x) = RegionOf(e.y)) /\ e.res + e.neg = 1)
     \/ e.a = "Empty" /\ Q(e, (e.res = 1) = IsEmpty(RegionOf(e.x)))
     \/ e.a = "Ext"   /\ Q(e, ExtOK(e.o, RegionOf(e.x), e.res, e.v))
     \/ e.a = "Area"  /\ Q(e, AreaOK(e.o, RegionOf(e.x), e.res))
     \/ e.a = "Image" /\ Q(e, ImageOK(e.o, RegionOf(e.x), e.v, e.m))
     \/ e.a = "Keep"  /\ Put(e.r, KeepOf(e.oa, e.v)) /\ (Seen(e.oa, Region(e.r)) = TRUE) /\ Observed(e, e.r)
     \/ e.a = "Interact" /\ Put(e.r, InteractOf(e.oa, RegionOf(e.y), e.ob)) /\ (Seen(e.oa, Region(e.r)) = TRUE) /\ (Seen(e.ob, RegionOf(e.y)) = TRUE)
                         /\ Observed(e, e.r)
     \/ e.a = "Conn"  /\ Q(e, ConnOK(TLCEval([i \in 1..Len(e.s) |-> RegionOf(e.s[i])]), e.o, Edges(e)))
     \/ e.a = "Merge" /\ Q(e, MergeOK(e.ins, e.out))
Done == l > Len(Traces[tid].ev) /\ UNCHANGED tvars
Next == Step \/ Done
Spec == Init /\ [][Next]_tvars
View == <<tid, l>>
=============================================================================
