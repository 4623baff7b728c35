------------------------------ MODULE TraceManh ------------------------------
(* Recorded histories of the real polygon_90_set code checked against Manh.   *)
EXTENDS Manh, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l
tvars == <<n, cnt, tid, l>>

Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ n = Traces[tid].n
        /\ cnt = [r \in 1..Traces[tid].K |-> ZeroCnt(Traces[tid].n)]

Ev == Traces[tid].ev[l]
Observed(e, r) == ObsOK(n, e.o, Bit(cnt'[r])) = TRUE

Step ==
  /\ l <= Len(Traces[tid].ev)
  /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET e == Ev IN
     \/ e.a = "Ins"     /\ Insert(e.r, e.s, IF e.h = 1 THEN -1 ELSE 1) /\ Observed(e, e.r)
     \/ e.a = "Bin"     /\ Boolean(e.r, e.op, e.x, e.y)  /\ Observed(e, e.r)
     \/ e.a = "BinA"    /\ BoolAssign(e.r, e.op, e.y)    /\ Observed(e, e.r)
     \/ e.a = "Asg"     /\ SetTo(e.r, e.x)               /\ Observed(e, e.r)
     \/ e.a = "Set"     /\ SetTo(e.r, e.x)               /\ Observed(e, e.r)
     \/ e.a = "Copy"    /\ Copy(e.r, e.s)                /\ Observed(e, e.r)
     \/ e.a = "Clear"   /\ Clear(e.r)                    /\ Observed(e, e.r)
     \/ e.a = "Clean"   /\ Clean(e.r)                    /\ Observed(e, e.r)
     \/ e.a = "SelfInt" /\ SelfIntersect(e.r)            /\ Observed(e, e.r)
     \/ e.a = "SelfXor" /\ SelfXor(e.r)                  /\ Observed(e, e.r)

     \/ e.a = "Eq"      /\ (e.res = 1) = (RegionOf(e.x) = RegionOf(e.y)) /\ e.res + e.neg = 1 /\ UNCHANGED mvars
     \/ e.a = "Empty"   /\ (e.res = 1) = IsEmpty(RegionOf(e.x))          /\ UNCHANGED mvars
     \/ e.a = "Ext"     /\ (LET f == RegionOf(e.x) IN IF IsEmpty(f) THEN e.res = 0 ELSE (e.res = 1 /\ e.v = Extents(f)))
                        /\ UNCHANGED mvars
     \/ e.a = "Size"    /\ e.res = CanonSize(RegionOf(e.x))              /\ UNCHANGED mvars
     \/ e.a = "Area"    /\ e.res = CellArea(RegionOf(e.x))               /\ UNCHANGED mvars
     \/ e.a = "Form"    /\ (FormOK(e.o, RegionOf(e.x), e.k) = TRUE) /\ UNCHANGED mvars
     \/ e.a = "Rects"   /\ (RectsOK(e.o, RegionOf(e.x), e.ori = 1) = TRUE) /\ UNCHANGED mvars
     \/ e.a = "MaxRects" /\ (MaxRectsOK(e.o, RegionOf(e.x)) = TRUE) /\ UNCHANGED mvars

Done == l > Len(Traces[tid].ev) /\ UNCHANGED tvars
Next == Step \/ Done
Spec == Init /\ [][Next]_tvars
View == <<tid, l>>
=============================================================================
