-------------------------------- MODULE Grow --------------------------------
(* Growing (r > 0) and shrinking (r < 0) a shape of arbitrary angles.
   Round: with rounded corners, by a regular polygon of n sides inscribed in
   the circle of radius |r|: every point nearer to the shape than the polygon's
   inner radius is in the result and no point further than |r| is; shrinking is
   growing the outside.  Miter: a convex shape with its corners kept is the
   intersection of its edges' half planes, each moved outwards by r
   (when shrinking, as long as every edge keeps some length).  Result
   vertices are rounded, so points within Tol of the ideal outline may go
   either way.  in[i] tells whether p[i] is inside (1), outside (0) or on the
   outline (2) of the result. *)
EXTENDS Measure
Tol == 4
MDot(u, w) == BAdd(BMul(u[1], w[1]), BMul(u[2], w[2]))
\* p is at least r (an integer) away from the edge from a to b
EdgeApart(a, b, p, r) ==
  LET d == MSub(b, a)  e == MSub(p, a)  t == MDot(e, d)  dd == MDot(d, d)  rr == BSq(BInt(r)) IN
  IF BSgn(t) <= 0 THEN BLe(rr, MDot(e, e))
  ELSE IF BLe(dd, t) THEN LET f == MSub(p, b) IN BLe(rr, MDot(f, f))
  ELSE BLe(BMul(rr, dd), BSq(MCross(d, e)))
Apart(p, r) == r <= 0 \/ \A k \in 1..Len(shape) : \A i \in 1..Len(shape[k]) : EdgeApart(shape[k][i], MNext(shape[k], i), p, r)
\* the inner radius of the n-gon, from below: cos(pi/n) > 1 - 5/n^2
Inner(r, n) == (r * (n * n - 5)) \div (n * n)
RoundOne(r, n, p, in) ==
  LET h == TLCEval(Has(p, TRUE)) IN
  \/ in = 2
  \/ IF r > 0 THEN /\ (h \/ ~Apart(p, Inner(r, n) - Tol)) => in = 1
                   /\ (~h /\ Apart(p, r + Tol)) => in = 0
     ELSE /\ (~h \/ ~Apart(p, Inner(-r, n) - Tol)) => in = 0
          /\ (h /\ Apart(p, Tol - r)) => in = 1
Round(r, n, p, in) == \A i \in 1..Len(p) : RoundOne(r, n, p[i], in[i])
\* p is at most m outside the line of the edge from a to b of a ring with turning sense o
SideLE(o, a, b, p, m) ==
  LET d == MSub(b, a)  c == BMul(BInt(o), MCross(d, MSub(p, a)))  s == BMul(BSq(BInt(m)), MDot(d, d)) IN
  IF m >= 0 THEN BSgn(c) >= 0 \/ BLe(BSq(c), s) ELSE BSgn(c) >= 0 /\ BLe(s, BSq(c))
AllLE(p, m) == LET o == BSgn(Area2(shape[1])) IN \A i \in 1..Len(shape[1]) : SideLE(o, shape[1][i], MNext(shape[1], i), p, m)
Miter(r, p, in) == \A i \in 1..Len(p) : \/ in[i] = 2
                                        \/ /\ AllLE(p[i], r - Tol) => in[i] = 1
                                           /\ ~AllLE(p[i], r + Tol) => in[i] = 0
=============================================================================
