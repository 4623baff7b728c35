--------------------------------- MODULE Iso ---------------------------------
(* Directions and orientations as unit vectors and axes; axis transformations *)
(* as signed permutations <<a, b, c, d>>: (1,0) -> (a,b), (0,1) -> (c,d);      *)
(* transformations as maps v |-> M(v - p); scale factors as signed powers of  *)
(* two in units of 2^-6.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES ax, tr, sc
mvars == <<ax, tr, sc>>

(* W E S N D U *)
Vec == <<<<-1, 0, 0>>, <<1, 0, 0>>, <<0, -1, 0>>, <<0, 1, 0>>, <<0, 0, -1>>, <<0, 0, 1>>>>
DirOf(v) == CHOOSE d \in 0..5 : Vec[d + 1] = v
Neg(v) == <<-v[1], -v[2], -v[3]>>
LeftOf(v) == <<-v[2], v[1], v[3]>>          \* counterclockwise
RightOf(v) == <<v[2], -v[1], v[3]>>
AxisOf(d) == CHOOSE o \in 0..2 : Vec[d + 1][o + 1] # 0
SignOf(d) == LET v == Vec[d + 1] IN v[1] + v[2] + v[3]
DirOn(o, s) == CHOOSE d \in 0..5 : AxisOf(d) = o /\ SignOf(d) = s
B(p) == IF p THEN 1 ELSE 0

Id == <<1, 0, 0, 1>>
App(m, v) == <<m[1] * v[1] + m[3] * v[2], m[2] * v[1] + m[4] * v[2]>>
Comp(m, q) == LET u == App(q, <<m[1], m[2]>>) w == App(q, <<m[3], m[4]>>) IN <<u[1], u[2], w[1], w[2]>>   \* first m, then q
Inv(m) == <<m[1], m[3], m[2], m[4]>>        \* orthogonal
Vec2(d) == <<Vec[d + 1][1], Vec[d + 1][2]>>
ByDirs(h, v) == LET a == Vec2(h) b == Vec2(v) IN <<a[1], a[2], b[1], b[2]>>
(* the enumerators list the images of the two positive directions *)
Named == <<ByDirs(1, 3), ByDirs(0, 3), ByDirs(1, 2), ByDirs(0, 2), ByDirs(3, 1), ByDirs(2, 1), ByDirs(3, 0), ByDirs(2, 0)>>
AxisCode(u) == CASE u = <<1, 0>> -> 0 [] u = <<-1, 0>> -> 1 [] u = <<0, 1>> -> 2 [] u = <<0, -1>> -> 3

Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Map(t, v) == App(t.m, Sub(v, t.p))
TComp(t, q) == [m |-> Comp(t.m, q.m), p |-> Add(t.p, App(Inv(t.m), q.p))]
TInv(t) == [m |-> Inv(t.m), p |-> Sub(<<0, 0>>, App(t.m, t.p))]
(* rotate about p, then carry p to q *)
About(m, p, q) == [m |-> m, p |-> Sub(p, App(Inv(m), q))]

AxPut(r, m) == ax' = [ax EXCEPT ![r] = m] /\ UNCHANGED <<tr, sc>>
TrPut(r, t) == tr' = [tr EXCEPT ![r] = t] /\ UNCHANGED <<ax, sc>>
ScPut(r, s) == sc' = [sc EXCEPT ![r] = s] /\ UNCHANGED <<ax, tr>>
One == 64
Mul(a, b) == (a * b) \div One               \* exact for the factors kept
RDiv(a) == (One * One) \div a
(* nearest integer, halves upward *)
Scale(f, x) == (2 * f * x + One) \div (2 * One)
=============================================================================
