--------------------------------- MODULE Arr ---------------------------------
(* Point sets bounded by integer segments at any angle.  A history comes with *)
(* the lines L that its shapes' edges lie on (<<x1,y1,x2,y2>>) and with one   *)
(* sample point per face of the arrangement of those lines (in 1/F units), so *)
(* a region bounded by these lines is exactly the set of samples it contains. *)
(* Shapes: [t |-> "P", v], [t |-> "H", v, h], [t |-> "L", s],                 *)
(* [t |-> "S", r], [t |-> "E", op, x, y] as in Tri.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
NV(v) == Len(v) \div 2
PX(v, i) == v[2 * i - 1]
PY(v, i) == v[2 * i]
Nxt(v, i) == IF i = NV(v) THEN 1 ELSE i + 1
Cross(ax, ay, bx, by, cx, cy) == (bx - ax) * (cy - ay) - (cx - ax) * (by - ay)

RECURSIVE Area2F(_, _)
Area2F(v, i) == IF i > NV(v) THEN 0
                ELSE Cross(PX(v, 1), PY(v, 1), PX(v, i), PY(v, i), PX(v, Nxt(v, i)), PY(v, Nxt(v, i))) + Area2F(v, i + 1)
Area2(v) == Area2F(v, 1)

(* edges as <<x1, y1, dx, dy, sign>>, all with dy > 0 (lower end first) *)
PathEdges(v, m) ==
  [i \in 1..NV(v) |->
     LET j == Nxt(v, i) x1 == PX(v, i) y1 == PY(v, i) x2 == PX(v, j) y2 == PY(v, j)
     IN IF y2 > y1 THEN <<x1, y1, x2 - x1, y2 - y1, m>>
        ELSE IF y2 < y1 THEN <<x2, y2, x1 - x2, y1 - y2, -m>>
        ELSE <<x1, y1, 0, 0, 0>>]
RECURSIVE CatEdges(_, _, _), PureEdges(_, _), ListEdges(_, _, _)
CatEdges(ps, m, i) == IF i > Len(ps) THEN <<>> ELSE PathEdges(ps[i], m * Sgn(Area2(ps[i]))) \o CatEdges(ps, m, i + 1)
PureEdges(s, m) ==
  CASE s.t = "P" -> PathEdges(s.v, m * Sgn(Area2(s.v)))
    [] s.t = "H" -> PathEdges(s.v, m * Sgn(Area2(s.v))) \o CatEdges(s.h, -m, 1)
    [] s.t = "L" -> ListEdges(s.s, m, 1)
ListEdges(ss, m, i) == IF i > Len(ss) THEN <<>> ELSE PureEdges(ss[i], m) \o ListEdges(ss, m, i + 1)
RECURSIVE SignedEdges(_, _)
SignedEdges(ps, i) == IF i > Len(ps) THEN <<>> ELSE PathEdges(ps[i], 1) \o SignedEdges(ps, i + 1)

(* signed winding count of the edges es at every sample of S: the edges to    *)
(* the right of the sample, upward ones positive                              *)
Winding(S, F, es) ==
  LET up == TLCEval({i \in 1..Len(es) : es[i][5] > 0})
      dn == TLCEval({i \in 1..Len(es) : es[i][5] < 0})
      hit(I, p) == Cardinality({i \in I : LET e == es[i] IN
                     /\ F * e[2] <= p[2] /\ p[2] < F * (e[2] + e[4])
                     /\ e[3] * (p[2] - F * e[2]) - e[4] * (p[1] - F * e[1]) > 0})
  IN TLCEval([k \in 1..Len(S) |-> hit(up, S[k]) - hit(dn, S[k])])

AddCnt(f, k, g) == TLCEval([c \in DOMAIN f |-> f[c] + k * g[c]])
Bit(f) == TLCEval([c \in DOMAIN f |-> IF f[c] > 0 THEN 1 ELSE 0])
OpBit(op, a, b) ==
  CASE op = 0 -> a \/ b
    [] op = 1 -> a /\ b
    [] op = 2 -> a # b
    [] op = 3 -> a /\ ~b
OpCnt(op, f, g) == TLCEval([c \in DOMAIN f |-> IF OpBit(op, f[c] > 0, g[c] > 0) THEN 1 ELSE 0])

(* ------------------------------------------------------------- geometry --- *)
OnSeg(ax, ay, bx, by, px, py) ==
  /\ Cross(ax, ay, bx, by, px, py) = 0
  /\ Min2(ax, bx) <= px /\ px <= Max2(ax, bx) /\ Min2(ay, by) <= py /\ py <= Max2(ay, by)
SegMeet(a, b) ==       \* closed segments <<x1,y1,x2,y2>> have a common point
  LET s1 == Sgn(Cross(a[1], a[2], a[3], a[4], b[1], b[2]))
      s2 == Sgn(Cross(a[1], a[2], a[3], a[4], b[3], b[4]))
      s3 == Sgn(Cross(b[1], b[2], b[3], b[4], a[1], a[2]))
      s4 == Sgn(Cross(b[1], b[2], b[3], b[4], a[3], a[4]))
  IN \/ s1 * s2 < 0 /\ s3 * s4 < 0
     \/ OnSeg(a[1], a[2], a[3], a[4], b[1], b[2]) \/ OnSeg(a[1], a[2], a[3], a[4], b[3], b[4])
     \/ OnSeg(b[1], b[2], b[3], b[4], a[1], a[2]) \/ OnSeg(b[1], b[2], b[3], b[4], a[3], a[4])
PathSegs(v) == [i \in 1..NV(v) |-> <<PX(v, i), PY(v, i), PX(v, Nxt(v, i)), PY(v, Nxt(v, i))>>]
RECURSIVE PathsSegs(_, _)
PathsSegs(ps, i) == IF i > Len(ps) THEN <<>> ELSE PathSegs(ps[i]) \o PathsSegs(ps, i + 1)
RECURSIVE PwhPaths(_, _)
PwhPaths(ps, i) == IF i > Len(ps) THEN <<>> ELSE <<ps[i].v>> \o ps[i].h \o PwhPaths(ps, i + 1)
ObsPaths(o) == IF o.k = "P" THEN o.v ELSE PwhPaths(o.v, 1)
InBox(M, v) == \A i \in 1..Len(v) : v[i] \in 0..M
IsPath(v) == Len(v) % 2 = 0 /\ NV(v) >= 3
(* every edge of the path lies on one of the lines L *)
OnLines(L, v) ==
  \A i \in 1..NV(v) : \E k \in 1..Len(L) :
     /\ Cross(L[k][1], L[k][2], L[k][3], L[k][4], PX(v, i), PY(v, i)) = 0
     /\ Cross(L[k][1], L[k][2], L[k][3], L[k][4], PX(v, Nxt(v, i)), PY(v, Nxt(v, i))) = 0
(* two directed segments run against each other on a common stretch *)
Opposed(a, b) ==
  /\ Cross(a[1], a[2], a[3], a[4], b[1], b[2]) = 0 /\ Cross(a[1], a[2], a[3], a[4], b[3], b[4]) = 0
  /\ LET dx == a[3] - a[1] dy == a[4] - a[2]
         pos(x, y) == (x - a[1]) * dx + (y - a[2]) * dy
         l == dx * dx + dy * dy  s == pos(b[1], b[2])  t == pos(b[3], b[4])
     IN t < s /\ t < l /\ s > 0
(* samples farther than d units from every line *)
FarSet(S, F, L, d) ==
  {k \in 1..Len(S) : \A i \in 1..Len(L) :
     LET dx == L[i][3] - L[i][1] dy == L[i][4] - L[i][2]
     IN Abs(dx * (S[k][2] - F * L[i][2]) - dy * (S[k][1] - F * L[i][1])) > d * F * (Abs(dx) + Abs(dy))}
=============================================================================
