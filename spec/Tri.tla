--------------------------------- MODULE Tri ---------------------------------
(* 45-degree point sets as functions over the triangles of an n x n grid of   *)
(* squares, every square being cut by its two diagonals.  Coordinates are     *)
(* doubled, so that the centres of the squares are integer points (odd, odd). *)
(* Cell c = 4*(y*n + x) + k, k = 0 S, 1 E, 2 N, 3 W.                          *)
(* Shapes: [t |-> "P", v |-> path], [t |-> "H", v |-> path, h |-> <<paths>>], *)
(* [t |-> "L", s |-> <<shapes>>], [t |-> "S", r |-> i],                       *)
(* [t |-> "E", op |-> k, x |-> s1, y |-> s2].                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
TCells(n) == 0..(4 * n * n - 1)
TZero(n) == [c \in TCells(n) |-> 0]
CX(n, c) == (c \div 4) % n
CY(n, c) == (c \div 4) \div n
CK(c) == c % 4

(* Two sample points inside every triangle, in eighths of a square, on no     *)
(* line through grid points or centres; the two lie on different sides of     *)
(* the lines through the centre, so both together see such lines.             *)
SampX(k, s) == CASE k = 0 -> IF s = 0 THEN 5 ELSE 3
                 [] k = 1 -> 6
                 [] k = 2 -> IF s = 0 THEN 5 ELSE 3
                 [] k = 3 -> 2
SampY(k, s) == CASE k = 0 -> 2
                 [] k = 1 -> IF s = 0 THEN 5 ELSE 3
                 [] k = 2 -> 6
                 [] k = 3 -> IF s = 0 THEN 5 ELSE 3
(* the three sample rows of a row of squares, and the row of a triangle *)
RowY(s, r) == CASE r = 0 -> 2 [] r = 1 -> (IF s = 0 THEN 5 ELSE 3) [] r = 2 -> 6
RowOf(k) == CASE k = 0 -> 0 [] k = 2 -> 2 [] OTHER -> 1

NV(v) == Len(v) \div 2
PX(v, i) == v[2 * i - 1]
PY(v, i) == v[2 * i]
Nxt(v, i) == IF i = NV(v) THEN 1 ELSE i + 1

RECURSIVE Area2F(_, _)
Area2F(v, i) == IF i > NV(v) THEN 0
                ELSE PX(v, i) * PY(v, Nxt(v, i)) - PX(v, Nxt(v, i)) * PY(v, i) + Area2F(v, i + 1)
Area2(v) == Area2F(v, 1)     (* doubled area in doubled coordinates: 8 x the area in squares *)

(* edges as <<ylo, yhi, x at ylo, dx/dy, sign>>, coordinates in eighths *)
PathEdges(v, m) ==
  [i \in 1..NV(v) |->
     LET j == Nxt(v, i) x1 == 4 * PX(v, i) y1 == 4 * PY(v, i) x2 == 4 * PX(v, j) y2 == 4 * PY(v, j)
     IN IF y2 > y1 THEN <<y1, y2, x1, Sgn(x2 - x1), -m>>
        ELSE IF y2 < y1 THEN <<y2, y1, x2, Sgn(x1 - x2), m>>
        ELSE <<0, 0, 0, 0, 0>>]

(* signed winding count of every triangle for a sequence of directed edges *)
EdgeCnt(n, es, s) ==
  LET ids == 1..Len(es)
      pos == TLCEval({i \in ids : es[i][5] > 0})
      neg == TLCEval({i \in ids : es[i][5] < 0})
      cross(S, y) == {<<i, es[i][3] + es[i][4] * (y - es[i][1])>> : i \in {j \in S : es[j][1] < y /\ y < es[j][2]}}
      rows == 0..(3 * n - 1)
      rp == TLCEval([r \in rows |-> cross(pos, 8 * (r \div 3) + RowY(s, (r % 3)))])
      rn == TLCEval([r \in rows |-> cross(neg, 8 * (r \div 3) + RowY(s, (r % 3)))])
  IN TLCEval([c \in TCells(n) |->
       LET r == 3 * CY(n, c) + RowOf(CK(c))  px == 8 * CX(n, c) + SampX(CK(c), s)
       IN Cardinality({p \in rp[r] : p[2] < px}) - Cardinality({p \in rn[r] : p[2] < px})])

(* all edges of a shape, each path taken as positively oriented, holes negated *)
RECURSIVE CatEdges(_, _, _), PureEdges(_, _)
CatEdges(ps, m, i) == IF i > Len(ps) THEN <<>> ELSE PathEdges(ps[i], m * Sgn(Area2(ps[i]))) \o CatEdges(ps, m, i + 1)
RECURSIVE ListEdges(_, _, _)
PureEdges(s, m) ==
  CASE s.t = "P" -> PathEdges(s.v, m * Sgn(Area2(s.v)))
    [] s.t = "H" -> PathEdges(s.v, m * Sgn(Area2(s.v))) \o CatEdges(s.h, -m, 1)
    [] s.t = "L" -> ListEdges(s.s, m, 1)
ListEdges(ss, m, i) == IF i > Len(ss) THEN <<>> ELSE PureEdges(ss[i], m) \o ListEdges(ss, m, i + 1)

AddCnt(f, k, g) == TLCEval([c \in DOMAIN f |-> f[c] + k * g[c]])
Bit(f) == TLCEval([c \in DOMAIN f |-> IF f[c] > 0 THEN 1 ELSE 0])
OpBit(op, a, b) ==
  CASE op = 0 -> a \/ b
    [] op = 1 -> a /\ b
    [] op = 2 -> a # b
    [] op = 3 -> a /\ ~b
(* a union accumulates the counts of its operands *)
OpCnt(op, f, g) == IF op = 0 THEN AddCnt(f, 1, g) ELSE TLCEval([c \in DOMAIN f |-> IF OpBit(op, f[c] > 0, g[c] > 0) THEN 1 ELSE 0])

RECURSIVE TShape(_, _, _)
TShape(n, s, env) ==
  CASE s.t = "S" -> env[s.r]
    [] s.t = "E" -> OpCnt(s.op, TShape(n, s.x, env), TShape(n, s.y, env))
    [] OTHER -> EdgeCnt(n, PureEdges(s, 1), 0)

(* -------------------------------------------------------- observations --- *)
(* [k |-> "P", v |-> <<path, ...>>], [k |-> "H", v |-> <<[v, h], ...>>]       *)
InGrid(n, v) == \A i \in 1..Len(v) : v[i] \in 0..(2 * n)
(* consecutive points differ by an axis-parallel or 45-degree step *)
IsPath45(v) ==
  /\ Len(v) % 2 = 0 /\ NV(v) >= 3
  /\ \A i \in 1..NV(v) :
       LET dx == Abs(PX(v, i) - PX(v, Nxt(v, i)))  dy == Abs(PY(v, i) - PY(v, Nxt(v, i)))
       IN dx = 0 \/ dy = 0 \/ dx = dy     \* a cut to a hole may repeat a point
RECURSIVE SignedEdges(_, _)
SignedEdges(ps, i) == IF i > Len(ps) THEN <<>> ELSE PathEdges(ps[i], 1) \o SignedEdges(ps, i + 1)
RECURSIVE PwhPaths(_, _)
PwhPaths(ps, i) == IF i > Len(ps) THEN <<>> ELSE <<ps[i].v>> \o ps[i].h \o PwhPaths(ps, i + 1)
ObsPaths(o) == IF o.k = "P" THEN o.v ELSE PwhPaths(o.v, 1)
(* every path is a 45-degree path on the grid; with their winding signs the   *)
(* pieces cover exactly region f, each point once                             *)
ObsOK(n, o, f) ==
  LET ps == ObsPaths(o) IN
  /\ \A i \in 1..Len(ps) : InGrid(n, ps[i]) /\ IsPath45(ps[i])
  /\ LET es == SignedEdges(ps, 1) IN EdgeCnt(n, es, 0) = f
(* the same with both families of sample points (pieces cut at square centres) *)
ObsFineOK(n, o, f) ==
  /\ ObsOK(n, o, f)
  /\ LET es == SignedEdges(ObsPaths(o), 1) IN EdgeCnt(n, es, 1) = f
=============================================================================
