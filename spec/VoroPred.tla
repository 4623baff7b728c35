------------------------------- MODULE VoroPred -------------------------------
(* The decisions of the Voronoi sweep, on exact numbers.  A site is a record:
   k = 1 a point p, k = 2 a segment directed from p to q, whose arc lies on its
   right (i = 1: directed against the sweep); n is its rank in sweep order.
   For a segment h = <<H, e>>: H = floor(2^e * length), checked here.
   The sweep line is vertical and moves to the right. *)
EXTENDS Voro
VARIABLE now         \* the sweep line has passed this abscissa, as <<mantissa, exponent>>; <<>> at the start
DirOf(s) == Sub2(s.q, s.p)
Vertical(s) == s.p[1] = s.q[1]
Turn(p, q, r) == BSgn(Crs(Sub2(q, p), Sub2(r, q)))
\* ------------------------------------------------------- order of the sites
SiteLess(s, t) ==
  IF s.p[1] # t.p[1] THEN BLt(s.p[1], t.p[1])
  ELSE IF Vertical(s) # Vertical(t) THEN Vertical(s)
       ELSE IF Vertical(s) THEN
            \* a point comes before a vertical segment that starts in it
            BLt(s.p[2], t.p[2]) \/ (s.p[2] = t.p[2] /\ s.k = 1 /\ t.k = 2)
       ELSE IF s.p[2] # t.p[2] THEN BLt(s.p[2], t.p[2])
       ELSE BSgn(Crs(DirOf(s), DirOf(t))) < 0
\* --------------------------------------------- a site against a circle event
\* v = <<mantissa, exponent>>; only a difference below 2^-45 may be taken either way
SiteFirstOK(s, v, r) ==
  LET k == NegMin(v[2], 0)  L == BShl(v[1], v[2] + k)  X == BShl(s.p[1], k)  d == BSub(L, X) IN
  IF BSgn(d) <= 0 THEN r = 0
  ELSE BLe(BShl(d, 45), BMax2(BAbs(L), BAbs(X))) \/ r = 1
\* v is not behind the sweep line, beyond the tolerance of the order of events
NotPast(v) == now = <<>> \/ LET k == NegMin(now[2], v[2])  A == BShl(now[1], now[2] + k)  Z == BShl(v[1], v[2] + k) IN
  BLe(A, Z) \/ BLe(BShl(BSub(A, Z), 40), BMax2(BAbs(A), BAbs(Z)))
Dyadic2(a, b) == LET k == NegMin(a[2], b[2]) IN <<BShl(a[1], a[2] + k), BShl(b[1], b[2] + k)>>
DLess(a, b) == LET p == Dyadic2(a, b) IN BLt(p[1], p[2])
DEq(a, b) == LET p == Dyadic2(a, b) IN p[1] = p[2]
CircleLess(c, d) == DLess(<<c[1], c[2]>>, <<d[1], d[2]>>) \/ (DEq(<<c[1], c[2]>>, <<d[1], d[2]>>) /\ DLess(<<c[3], c[4]>>, <<d[3], d[4]>>))
\* ------------------------------------------- a new point against two arcs
RootOK(s) == LET u == DirOf(s)  l == BShl(Dot(u, u), 2 * s.h[2]) IN BLe(BSq(s.h[1]), l) /\ BLt(l, BSq(BAdd(s.h[1], BOne)))
\* abscissa of the arc of s at the height of z, from z: a fraction with positive denominator; the arc in front has the larger one
ArcX(s, z) ==
  IF s.k = 1 THEN LET w == Sub2(s.p, z) IN <<BNeg(Dot(w, w)), BTwice(BNeg(w[1]))>>
  ELSE IF Vertical(s) THEN <<BSub(s.p[1], z[1]), <<1, 2>>>>
  ELSE LET u == DirOf(s)  c == Crs(u, Sub2(z, s.p))  e == s.h[2] IN
       IF BSgn(u[2]) >= 0 THEN <<BShl(c, e), BAdd(BShl(u[2], e), s.h[1])>>
       ELSE <<BMul(c, BSub(s.h[1], BShl(u[2], e))), BShl(BSq(u[1]), e)>>
\* -1, 0 (too close to tell in floating point), 1
FracCmp(f, g) ==
  LET a == TLCEval(BMul(f[1], g[2]))  b == TLCEval(BMul(g[1], f[2]))  d == BSub(a, b) IN
  IF BLe(BShl(BAbs(d), 44), BMax2(BAbs(a), BAbs(b))) THEN 0 ELSE BSgn(d)
\* side of z from the height where the arc of the point p is furthest ahead of that of the segment s
MidCmp(p, s, z) ==
  LET u == DirOf(s) IN
  IF Vertical(s) THEN BCmp(z[2], p.p[2])
  ELSE FracCmp(<<BMul(BSub(z[2], p.p[2]), BAdd(BShl(u[2], s.h[2]), s.h[1])), BOne>>, <<BShl(BMul(BSub(p.p[1], z[1]), u[1]), s.h[2]), BOne>>)
Small(p) == Len(p[1]) <= 2 /\ Len(p[2]) <= 2
\* is z above the point where the arc of s (below) meets that of t (above)?  r is the answer given
AboveOK(s, t, z, r) ==
  IF s.k = 1 /\ t.k = 1 THEN
    IF s.p[1] = t.p[1] THEN r = (IF BLt(BAdd(s.p[2], t.p[2]), BTwice(z[2])) THEN 1 ELSE 0)
    ELSE LET f == TLCEval(ArcX(s, z))  g == TLCEval(ArcX(t, z))  c == FracCmp(f, g)
             newerleft == BLt(t.p[1], s.p[1]) IN
         IF newerleft /\ BLe(z[2], s.p[2]) THEN r = 0
         ELSE IF ~newerleft /\ BLe(t.p[2], z[2]) THEN r = 1
         ELSE IF c = 0 THEN (Small(s.p) /\ Small(t.p) /\ Small(z) /\ BMul(f[1], g[2]) = BMul(g[1], f[2])) => r = 0
         ELSE r = (IF c < 0 THEN 1 ELSE 0)
  ELSE IF s.k = 2 /\ t.k = 2 THEN
    IF s.n = t.n THEN r = (IF Turn(s.p, s.q, z) > 0 THEN 1 ELSE 0)
    ELSE RootOK(s) /\ RootOK(t) /\ LET c == FracCmp(ArcX(s, z), ArcX(t, z)) IN c = 0 \/ r = (IF c < 0 THEN 1 ELSE 0)
  ELSE LET p == IF s.k = 1 THEN s ELSE t  e == IF s.k = 1 THEN t ELSE s IN
    /\ RootOK(e)
    /\ IF Turn(e.p, e.q, z) >= 0 THEN r = 1 - e.i
       ELSE LET c == FracCmp(ArcX(p, z), ArcX(e, z))  m == TLCEval(MidCmp(p, e, z)) IN
            IF c = 0 THEN TRUE
            ELSE IF s.k = 1 THEN (IF c > 0 THEN r = 0 ELSE m = 0 \/ r = (IF m > 0 THEN 1 ELSE 0))
            ELSE (IF c > 0 THEN r = 1 ELSE m = 0 \/ r = (IF m > 0 THEN 1 ELSE 0))
\* ------------------------------------------------------------ circle events
\* z = <<X, Y, k>>; direction from the centre to where the circle touches the site
Touch(s, z) == IF s.k = 1 THEN Sub2(V2(s.p, z[3]), z) ELSE LET u == DirOf(s) IN <<BNeg(u[2]), u[1]>>
CDist(s, z) ==
  IF s.k = 1 THEN LET w == Sub2(z, V2(s.p, z[3])) IN <<Dot(w, w), BOne>>
  ELSE LET u == DirOf(s) IN <<BSq(Crs(u, Sub2(z, V2(s.p, z[3])))), Dot(u, u)>>
\* clockwise from the rightmost point, v is definitely met before w (exact: a flag per direction; m2: squared size of the numbers)
Half(v, exact, m2) ==      \* 1 lower half (met first), 2 upper, 0 cannot tell
  IF ~exact /\ BLe(BShl(BSq(v[2]), 80), m2) THEN 0 ELSE IF BSgn(v[2]) < 0 THEN 1 ELSE IF BSgn(v[2]) > 0 THEN 2 ELSE IF BSgn(v[1]) < 0 THEN 3 ELSE 0
HalfLess(a, b) == (a = 1 /\ b \in {2, 3}) \/ (a = 3 /\ b = 2)
Before(v, xv, w, xw, m2) ==
  LET a == Half(v, xv, m2)  b == Half(w, xw, m2)  c == TLCEval(Crs(v, w)) IN
  IF a = 0 \/ b = 0 THEN FALSE
  ELSE IF HalfLess(a, b) THEN TRUE ELSE IF a # b THEN FALSE
  ELSE BSgn(c) < 0 /\ ((xv /\ xw) \/ BLt(BMul(m2, BMax2(IF xw THEN <<0>> ELSE Dot(v, v), IF xv THEN <<0>> ELSE Dot(w, w))), BShl(BSq(c), 78)))
TouchOrderOK(s, t, z, m2) == ~Before(Touch(t, z), t.k = 2, Touch(s, z), s.k = 2, m2)
\* relative error of v/2^k against num/den at most 2^-bits
Near2(x, k, num, den, bits) == BLe(BShl(BAbs(BSub(BMul(x, den), BShl(num, k))), bits), BAbs(BShl(num, k)))
\* the rightmost point of the circle of three points, bracketed: low = num/den + sqrt(rad)/|den| up to 2^-bits of low
LowOK(x, k, p, q, w, bits) ==
  LET c == TLCEval(Circum(p, q, w))  den == c[3]
      rad == TLCEval(BMul(BMul(Dot(Sub2(q, p), Sub2(q, p)), Dot(Sub2(w, p), Sub2(w, p))), Dot(Sub2(w, q), Sub2(w, q))))
      \* sign of (y - low) * positive, for y = Y / 2^(k + bits)
      side(Y) == LET a == BMul(BSub(BMul(Y, den), BShl(c[1], k + bits)), <<BSgn(den), 1>>) IN
                 IF BSgn(a) < 0 THEN -1 ELSE BCmp(BSq(a), BShl(rad, 2 * (k + bits)))
      X == BShl(x, bits)  d == BAbs(x) IN
  side(TLCEval(BSub(X, d))) <= 0 /\ side(TLCEval(BAdd(X, d))) >= 0
RightOf(s, z) == s.k = 1 \/ BSgn(Crs(DirOf(s), Sub2(z, V2(s.p, z[3])))) < 0
Within(s, z) ==
  s.k = 1 \/ LET u == DirOf(s) IN BSgn(Dot(u, Sub2(z, V2(s.p, z[3])))) > 0 /\ BSgn(Dot(u, Sub2(z, V2(s.q, z[3])))) < 0
\* beach: the three arcs were neighbours on the beach line, from below
CircleOK(s, t, u, r, c, beach) ==
  /\ (s.k = 1 /\ t.k = 1 /\ u.k = 1) => r = (IF Turn(s.p, t.p, u.p) < 0 THEN 1 ELSE 0)
  /\ (r = 0 /\ beach /\ c # <<>>) =>
     LET kk == TLCEval(IF NegMin(c[2], c[4]) > NegMin(c[6], 0) THEN NegMin(c[2], c[4]) ELSE NegMin(c[6], 0))
         z == TLCEval(<<BShl(c[1], c[2] + kk), BShl(c[3], c[4] + kk), kk>>)
         lo == TLCEval(BShl(c[5], c[6] + kk))  rad == BSub(lo, z[1])
         m2 == TLCEval(BSq(BAdd(BAdd(BAbs(z[1]), BAbs(z[2])), BAbs(lo))))  rr == TLCEval(<<BSq(rad), BOne>>) IN
     ~(/\ BSgn(rad) > 0
       /\ \A w \in {s, t, u} : NearD(CDist(w, z), rr, m2, Tol) /\ RightOf(w, z) /\ Within(w, z)
       /\ Before(Touch(s, z), s.k = 2, Touch(t, z), t.k = 2, m2) /\ Before(Touch(t, z), t.k = 2, Touch(u, z), u.k = 2, m2))
  /\ r = 1 =>
     LET kk == TLCEval(IF NegMin(c[2], c[4]) > NegMin(c[6], 0) THEN NegMin(c[2], c[4]) ELSE NegMin(c[6], 0))
         z == TLCEval(<<BShl(c[1], c[2] + kk), BShl(c[3], c[4] + kk), kk>>)
         lo == TLCEval(BShl(c[5], c[6] + kk))  rad == BSub(lo, z[1])
         m2 == TLCEval(BSq(BAdd(BAdd(BAbs(z[1]), BAbs(z[2])), BAbs(lo))))  rr == TLCEval(<<BSq(rad), BOne>>) IN
     /\ c[2] < 90000 /\ c[4] < 90000 /\ c[6] < 90000
     /\ BSgn(rad) >= 0
     /\ \A w \in {s, t, u} : NearD(CDist(w, z), rr, m2, Tol)
     /\ \A w \in {s, t, u} : w.k = 2 => NotNeg(BNeg(Crs(DirOf(w), Sub2(z, V2(w.p, z[3])))), Dot(DirOf(w), DirOf(w)), m2)
     /\ beach => TouchOrderOK(s, t, z, m2) /\ TouchOrderOK(t, u, z, m2) /\ TouchOrderOK(s, u, z, m2)
     /\ (s.k = 1 /\ t.k = 1 /\ u.k = 1) =>
          LET e == TLCEval(Circum(s.p, t.p, u.p)) IN
          /\ Near2(z[1], kk, e[1], e[3], 46) /\ Near2(z[2], kk, e[2], e[3], 46)
          /\ LowOK(lo, kk, s.p, t.p, u.p, 45)
\* ------------------------------------------------------------ cross products
CrossOK(v, w, d, r) ==
  LET c == Crs(v, w)  k == NegMin(d[2], 0) IN
  /\ d[2] < 90000 /\ r = BSgn(c) /\ BSgn(d[1]) = BSgn(c) /\ Near2(BShl(d[1], d[2] + k), k, c, BOne, 51)
=============================================================================
