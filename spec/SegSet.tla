------------------------------- MODULE SegSet -------------------------------
(* A bag of integer segments <<x1, y1, x2, y2>> that is split at every place  *)
(* where two of them meet.  grid = 1: all crossings are integer points and    *)
(* every end or crossing is at least two units away from the segments not     *)
(* through it, splitting is exact.  grid = 0: crossings are rounded.          *)
EXTENDS Arr
VARIABLES grid, segs
svars == <<grid, segs>>
Degenerate(s) == s[1] = s[3] /\ s[2] = s[4]
Has(s, x, y) == OnSeg(s[1], s[2], s[3], s[4], x, y)
IsEnd(s, x, y) == (s[1] = x /\ s[2] = y) \/ (s[3] = x /\ s[4] = y)
Same(a, b) == IsEnd(a, b[1], b[2]) /\ IsEnd(a, b[3], b[4]) /\ IsEnd(b, a[1], a[2]) /\ IsEnd(b, a[3], a[4])
Inner(s, x, y) == Has(s, x, y) /\ ~IsEnd(s, x, y)
Parallel(a, b) == (a[3] - a[1]) * (b[4] - b[2]) = (a[4] - a[2]) * (b[3] - b[1])
Crosses(a, b) ==
  /\ Sgn(Cross(a[1], a[2], a[3], a[4], b[1], b[2])) * Sgn(Cross(a[1], a[2], a[3], a[4], b[3], b[4])) < 0
  /\ Sgn(Cross(b[1], b[2], b[3], b[4], a[1], a[2])) * Sgn(Cross(b[1], b[2], b[3], b[4], a[3], a[4])) < 0
BoxApart(a, b) == \/ Max2(a[1], a[3]) < Min2(b[1], b[3]) \/ Max2(b[1], b[3]) < Min2(a[1], a[3])
                  \/ Max2(a[2], a[4]) < Min2(b[2], b[4]) \/ Max2(b[2], b[4]) < Min2(a[2], a[4])
(* the two meet at most at ends of both, or are the same *)
Clean2(a, b) ==
  \/ BoxApart(a, b)
  \/ Same(a, b)
  \/ /\ ~Crosses(a, b)
     /\ ~Inner(a, b[1], b[2]) /\ ~Inner(a, b[3], b[4]) /\ ~Inner(b, a[1], a[2]) /\ ~Inner(b, a[3], a[4])
Len1(s) == Abs(s[3] - s[1]) + Abs(s[4] - s[2])
RECURSIVE SumLen(_, _)
SumLen(o, I) == IF I = {} THEN 0 ELSE LET i == CHOOSE x \in I : TRUE IN Len1(o[i]) + SumLen(o, I \ {i})
(* the arrangement of pieces o with sources id *)
Consistent(o, id) ==
  /\ \A i \in 1..Len(o) : ~Degenerate(o[i])
  /\ \A i \in 1..Len(o) : \A j \in (i + 1)..Len(o) :
        Clean2(o[i], o[j]) /\ (Same(o[i], o[j]) => id[i] # id[j])
(* pieces o tile the segments s, split exactly at their ends and crossings *)
SplitOK(s, o, id) ==
  LET of(k) == {i \in 1..Len(o) : id[i] = k} IN
  /\ \A i \in 1..Len(o) : id[i] \in 1..Len(s) /\ Has(s[id[i]], o[i][1], o[i][2]) /\ Has(s[id[i]], o[i][3], o[i][4])
  /\ Consistent(o, id)
  /\ \A k \in 1..Len(s) : SumLen(o, of(k)) = Len1(s[k])
  /\ \A i \in 1..Len(o) : \A e \in {<<o[i][1], o[i][2]>>, <<o[i][3], o[i][4]>>} :
        \/ \E k \in 1..Len(s) : IsEnd(s[k], e[1], e[2])
        \/ \E k \in 1..Len(s) : k # id[i] /\ ~Parallel(s[k], s[id[i]]) /\ Has(s[k], e[1], e[2])
(* rounded: pieces of a source form a path between its ends that stays near   *)
Near(s, x, y) ==
  LET dx == s[3] - s[1] dy == s[4] - s[2] IN Abs(dx * (y - s[2]) - dy * (x - s[1])) <= 2 * (Abs(dx) + Abs(dy))
  /\ x >= Min2(s[1], s[3]) - 1 /\ x <= Max2(s[1], s[3]) + 1 /\ y >= Min2(s[2], s[4]) - 1 /\ y <= Max2(s[2], s[4]) + 1
EndsOf(o, I) == {<<o[i][1], o[i][2]>> : i \in I} \cup {<<o[i][3], o[i][4]>> : i \in I}
Deg(o, I, p) == Cardinality({i \in I : IsEnd(o[i], p[1], p[2])})
SnapOK(s, o, id) ==
  LET of(k) == {i \in 1..Len(o) : id[i] = k} IN
  /\ \A i \in 1..Len(o) : id[i] \in 1..Len(s) /\ Near(s[id[i]], o[i][1], o[i][2]) /\ Near(s[id[i]], o[i][3], o[i][4])
  /\ Consistent(o, id)
  /\ \A k \in 1..Len(s) : ~Degenerate(s[k]) =>
       LET I == TLCEval(of(k)) a == <<s[k][1], s[k][2]>> b == <<s[k][3], s[k][4]>>
       IN \A p \in EndsOf(o, I) \cup {a, b} : Deg(o, I, p) = (IF p \in {a, b} THEN 1 ELSE 2)
Cnt(o, q) == Cardinality({i \in 1..Len(o) : Same(o[i], q)})
BagSame(o, p) == Len(o) = Len(p) /\ \A i \in 1..Len(o) : Cnt(o, o[i]) = Cnt(p, o[i])

Load(s) == segs' = s /\ UNCHANGED grid
(* o, id: the tagged pieces; o2: the untagged pieces of a second call         *)
Split(o, id, o2) ==
  /\ (IF grid = 1 THEN SplitOK(segs, o, id) ELSE SnapOK(segs, o, id)) = TRUE
  /\ BagSame(o, o2) = TRUE
  /\ segs' = o /\ UNCHANGED grid
SetMin(T) == CHOOSE a \in T : \A b \in T : a <= b
SetMax(T) == CHOOSE a \in T : \A b \in T : a >= b
EnvelopeOK(res, v) ==
  IF segs = <<>> THEN res = 0
  ELSE LET X == {segs[i][1] : i \in 1..Len(segs)} \cup {segs[i][3] : i \in 1..Len(segs)}
           Y == {segs[i][2] : i \in 1..Len(segs)} \cup {segs[i][4] : i \in 1..Len(segs)}
       IN res = 1 /\ v = <<SetMin(X), SetMin(Y), SetMax(X), SetMax(Y)>>
=============================================================================
