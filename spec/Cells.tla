-------------------------------- MODULE Cells --------------------------------
(* Manhattan point sets as functions over the unit cells of an n x n rank     *)
(* grid.  Cell c has lower-left corner (c % n, c \div n).  Shapes are records *)
(* as recorded by the drivers:                                                *)
(*   [t |-> "R", v |-> <<xl,yl,xh,yh>>]          rectangle                    *)
(*   [t |-> "P", v |-> <<x0,y0,x1,y1,...>>]      polygon, either winding      *)
(*   [t |-> "H", v |-> <<...>>, h |-> <<hole, ...>>]   polygon with holes     *)
(*   [t |-> "L", s |-> <<shape, ...>>]           container of shapes          *)
(*   [t |-> "S", r |-> i]                        the current value of set i   *)
(*   [t |-> "E", op |-> k, x |-> s1, y |-> s2]   boolean expression           *)
EXTENDS Integers, Sequences, FiniteSets

Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

Cells(n) == 0..(n * n - 1)
ZeroCnt(n) == [c \in Cells(n) |-> 0]

(* ------------------------------------------------ what a shape covers --- *)
RectCnt(n, v) ==
  [c \in Cells(n) |-> LET x == c % n  y == c \div n IN
     IF v[1] <= x /\ x < v[3] /\ v[2] <= y /\ y < v[4] THEN 1 ELSE 0]

(* how many rectangles of the sequence cover each cell *)
RectsCnt(n, rs) ==
  [c \in Cells(n) |-> LET x == c % n  y == c \div n IN
     Cardinality({i \in 1..Len(rs) :
        LET v == rs[i] IN v[1] <= x /\ x < v[3] /\ v[2] <= y /\ y < v[4]})]

(* signed winding number of every cell with respect to a closed Manhattan     *)
(* path given as a flat sequence of coordinates                               *)
NV(v) == Len(v) \div 2
PX(v, i) == v[2 * i - 1]
PY(v, i) == v[2 * i]
Nxt(v, i) == IF i = NV(v) THEN 1 ELSE i + 1
WindCnt(n, v) ==
  LET dn == {i \in 1..NV(v) : PY(v, i) > PY(v, Nxt(v, i))}
      up == {i \in 1..NV(v) : PY(v, i) < PY(v, Nxt(v, i))}
  IN [c \in Cells(n) |-> LET x == c % n  y == c \div n IN
        Cardinality({i \in dn : PX(v, i) <= x /\ PY(v, Nxt(v, i)) <= y /\ y < PY(v, i)})
      - Cardinality({i \in up : PX(v, i) <= x /\ PY(v, i) <= y /\ y < PY(v, Nxt(v, i))})]

(* a path whose consecutive points differ in exactly one coordinate *)
IsManhattanPath(v) ==
  /\ Len(v) % 2 = 0 /\ NV(v) >= 4
  /\ \A i \in 1..NV(v) : (PX(v, i) = PX(v, Nxt(v, i))) # (PY(v, i) = PY(v, Nxt(v, i)))

(* the same, but repeated and colinear points are allowed *)
IsManhattanWalk(v) ==
  /\ Len(v) % 2 = 0 /\ NV(v) >= 4
  /\ \A i \in 1..NV(v) : (PX(v, i) = PX(v, Nxt(v, i))) \/ (PY(v, i) = PY(v, Nxt(v, i)))

AbsCnt(f) == [c \in DOMAIN f |-> Abs(f[c])]
AddCnt(f, k, g) == [c \in DOMAIN f |-> f[c] + k * g[c]]
Bit(f) == [c \in DOMAIN f |-> IF f[c] > 0 THEN 1 ELSE 0]

RECURSIVE HolesCnt(_, _)
HolesCnt(n, hs) == IF hs = <<>> THEN ZeroCnt(n)
                   ELSE AddCnt(AbsCnt(WindCnt(n, Head(hs))), 1, HolesCnt(n, Tail(hs)))

OpBit(op, a, b) ==
  CASE op = 0 -> a \/ b
    [] op = 1 -> a /\ b
    [] op = 2 -> a # b
    [] op = 3 -> a /\ ~b

OpCnt(op, f, g) == [c \in DOMAIN f |-> IF OpBit(op, f[c] > 0, g[c] > 0) THEN 1 ELSE 0]

RECURSIVE ShapeCnt(_, _, _), ListCnt(_, _, _)
(* env maps set indices to their current counts *)
ShapeCnt(n, s, env) ==
  CASE s.t = "R" -> RectCnt(n, s.v)
    [] s.t = "P" -> AbsCnt(WindCnt(n, s.v))
    [] s.t = "H" -> AddCnt(AbsCnt(WindCnt(n, s.v)), -1, HolesCnt(n, s.h))
    [] s.t = "L" -> ListCnt(n, s.s, env)
    [] s.t = "S" -> env[s.r]
    [] s.t = "E" -> OpCnt(s.op, ShapeCnt(n, s.x, env), ShapeCnt(n, s.y, env))
ListCnt(n, ss, env) ==
  IF ss = <<>> THEN ZeroCnt(n)
  ELSE AddCnt(ShapeCnt(n, Head(ss), env), 1, ListCnt(n, Tail(ss), env))

(* ----------------------------------------- what an observation covers --- *)
(*   [k |-> "R", v |-> <<rect, ...>>]                                         *)
(*   [k |-> "P", v |-> <<path, ...>>]                                         *)
(*   [k |-> "H", v |-> <<[v |-> path, h |-> <<path, ...>>], ...>>]            *)
InGrid(n, v) == \A i \in 1..Len(v) : v[i] \in 0..n
ValidRects(n, rs) == \A i \in 1..Len(rs) : InGrid(n, rs[i]) /\ rs[i][1] < rs[i][3] /\ rs[i][2] < rs[i][4]

RECURSIVE PathsCnt(_, _)
PathsCnt(n, ps) == IF ps = <<>> THEN ZeroCnt(n)
                   ELSE AddCnt(WindCnt(n, Head(ps)), 1, PathsCnt(n, Tail(ps)))
RECURSIVE PwhCnt(_, _)
PwhCnt(n, ps) == IF ps = <<>> THEN ZeroCnt(n)
                 ELSE AddCnt(AddCnt(WindCnt(n, Head(ps).v), 1, PathsCnt(n, Head(ps).h)), 1, PwhCnt(n, Tail(ps)))

(* Every piece is in range and the pieces, taken with their winding signs,    *)
(* cover exactly the cells of region f (a 0/1 function), each once.           *)
ObsOK(n, o, f) ==
  CASE o.k = "R" -> ValidRects(n, o.v) /\ RectsCnt(n, o.v) = f
    [] o.k = "P" -> (\A i \in 1..Len(o.v) : InGrid(n, o.v[i]) /\ IsManhattanPath(o.v[i])) /\ PathsCnt(n, o.v) = f
    [] o.k = "H" -> /\ \A i \in 1..Len(o.v) : /\ InGrid(n, o.v[i].v) /\ IsManhattanPath(o.v[i].v)
                                              /\ \A j \in 1..Len(o.v[i].h) : InGrid(n, o.v[i].h[j]) /\ IsManhattanPath(o.v[i].h[j])
                    /\ PwhCnt(n, o.v) = f
=============================================================================
