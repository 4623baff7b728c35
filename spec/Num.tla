-------------------------------- MODULE Num --------------------------------
(* The number types of the Voronoi engine as a register machine.
   reg: fixed-width big integers; flt: floating point numbers with a wide
   exponent, <<m, e>> for m * 2^e; dif: pairs kept by robust_dif, by the exact
   value they stand for; rf: the exact rational value each error-tracked
   floating point number stands for, <<num, den>>, den > 0. *)
EXTENDS Big
VARIABLES reg, flt, dif, rf
nvars == <<reg, flt, dif, rf>>
NAbs(n) == IF n < 0 THEN -n ELSE n
\* ---- big integers
\* count: signed number of 32-bit words without leading zero words
Words(v, n) == IF n = 0 THEN BSgn(v) = 0
               ELSE /\ BSgn(v) = (IF n < 0 THEN -1 ELSE 1)
                    /\ BLe(BPow2(32 * (NAbs(n) - 1)), BAbs(v)) /\ BLt(BAbs(v), BPow2(32 * NAbs(n)))
IOp(op, x, y) == CASE op = "add" -> BAdd(x, y) [] op = "sub" -> BSub(x, y) [] op = "mul" -> BMul(x, y)
                   [] op = "neg" -> BNeg(x) [] op = "copy" -> x
B01(b) == IF b THEN 1 ELSE 0
ICmp(x, y) == LET c == BCmp(x, y) IN <<B01(c = 0), B01(c # 0), B01(c < 0), B01(c > 0), B01(c <= 0), B01(c >= 0)>>
ISgn(x) == <<B01(BSgn(x) > 0), B01(BSgn(x) < 0), B01(BSgn(x) = 0)>>
\* ---- wide-exponent floating point
Sh(x, e) == BShl(x[1], x[2] - e)
FMin(x, y) == IF x[2] < y[2] THEN x[2] ELSE y[2]
FAdd(x, y) == LET e == FMin(x, y) IN <<BAdd(Sh(x, e), Sh(y, e)), e>>
FMul(x, y) == <<BMul(x[1], y[1]), x[2] + y[2]>>
FNeg(x) == <<BNeg(x[1]), x[2]>>
\* r is t up to a relative error of 2^-b
FClose(r, t, b) ==
  IF BSgn(t[1]) = 0 THEN BSgn(r[1]) = 0
  ELSE /\ BSgn(r[1]) # 0 /\ NAbs(r[2] - t[2]) < 4000
       /\ LET e == FMin(r, t) IN BLe(BShl(BAbs(BSub(Sh(r, e), Sh(t, e))), b), BAbs(Sh(t, e)))
FSame(r, t) == IF BSgn(t[1]) = 0 THEN BSgn(r[1]) = 0 ELSE r = t     \* mantissas are odd
FSum(x, y, r) ==
  IF BSgn(x[1]) = 0 THEN FSame(r, y) ELSE IF BSgn(y[1]) = 0 THEN FSame(r, x)
  ELSE IF x[2] > y[2] + 200 THEN FClose(r, x, 52)
  ELSE IF y[2] > x[2] + 200 THEN FClose(r, y, 52)
  ELSE FClose(r, FAdd(x, y), 52)
FOp(op, x, y, r) ==
  CASE op = "add"  -> FSum(x, y, r)
    [] op = "sub"  -> FSum(x, FNeg(y), r)
    [] op = "mul"  -> FClose(r, FMul(x, y), 52)
    [] op = "div"  -> FClose(FMul(r, y), x, 52)
    [] op = "sqrt" -> FClose(FMul(r, r), x, 51) /\ BSgn(r[1]) >= 0
    [] op = "neg"  -> FSame(r, FNeg(x))
    [] op = "copy" -> FSame(r, x)
\* a floating point image of an integer: exactly rounded below 2^53, within 2^-51 otherwise
FOfInt(v, r) == IF BLt(BAbs(v), BPow2(53)) THEN FClose(r, <<v, 0>>, 4000) ELSE FClose(r, <<v, 0>>, 51)
\* doubles x, y by their order-preserving bit patterns: equal within u units in the last place
Ulp(x, y, u, r) == r = (IF BLe(BAbs(BSub(x, y)), u) THEN 0 ELSE BCmp(x, y))
\* ---- robust_dif
DOp(op, x, y) == CASE op = "add" -> BAdd(x, y) [] op = "sub" -> BSub(x, y) [] op = "mul" -> BMul(x, y) [] op = "neg" -> BNeg(x) [] op = "set" -> y
DOK(v, p, n) == BSgn(p) >= 0 /\ BSgn(n) >= 0 /\ BSub(p, n) = v
\* division by y of both parts, which are multiples of y
DDiv(x, y, p, n) == BSgn(p) >= 0 /\ BSgn(n) >= 0 /\ BMul(BSub(p, n), y) = x
\* ---- sums of A[i] * sqrt(B[i]); R[i] is sqrt(B[i]) in units of 2^-k, checked here, and k is
\*      large enough to tell a nonzero sum from zero (driver's choice; Separated when not zero)
RECURSIVE SSum(_, _, _)
SSum(A, R, i) == IF i > Len(A) THEN BZero ELSE BAdd(BMul(A[i], R[i]), SSum(A, R, i + 1))
RECURSIVE SAbs(_, _)
SAbs(A, i) == IF i > Len(A) THEN BZero ELSE BAdd(BAbs(A[i]), SAbs(A, i + 1))
\* the relative error allowed to sums of 1, 2, 3, 4 terms, in units of 2^-53
Rel == <<4, 7, 16, 25>>
SqrtSum(A, B, R, k, r, exact) ==
  /\ \A i \in 1..Len(A) : BSgn(R[i]) >= 0 /\ BIsSqrt(B[i], <<1, 1>>, R[i], k)
  /\ LET s == TLCEval(SSum(A, R, 1))  u == SAbs(A, 1) IN      \* true sum * 2^k is within u of s
     IF BLe(BAbs(s), u) THEN exact /\ BSgn(r[1]) = 0
     ELSE /\ BLe(BShl(u, 64), BAbs(s)) /\ BSgn(r[1]) = BSgn(s)
          /\ LET e == FMin(r, <<s, -k>>)  t == Sh(<<s, -k>>, e) IN
             BLe(BShl(BAbs(BSub(Sh(r, e), t)), 53), BMul(BAbs(t), BInt(Rel[Len(A)] + 1)))
\* ---- robust_fpt
QOp(op, x, y) == CASE op = "add" -> <<BAdd(BMul(x[1], y[2]), BMul(y[1], x[2])), BMul(x[2], y[2])>>
                   [] op = "sub" -> <<BSub(BMul(x[1], y[2]), BMul(y[1], x[2])), BMul(x[2], y[2])>>
                   [] op = "mul" -> <<BMul(x[1], y[1]), BMul(x[2], y[2])>>
                   [] op = "div" -> IF BSgn(y[1]) > 0 THEN <<BMul(x[1], y[2]), BMul(x[2], y[1])>> ELSE <<BNeg(BMul(x[1], y[2])), BNeg(BMul(x[2], y[1]))>>
                   [] op = "neg" -> <<BNeg(x[1]), x[2]>>
\* f = <<m, e>> is q up to (1 + 2^-8) * re units of 2^-53 relative error
QOK(q, f, re) ==
  LET num == IF f[2] >= 0 THEN <<BMul(BShl(f[1], f[2]), q[2]), q[1]>> ELSE <<BMul(f[1], q[2]), BShl(q[1], -f[2])>>
      d == BShl(BAbs(BSub(num[1], num[2])), 53 + 8)  m == BMul(BMul(BAbs(num[2]), re[1]), BInt(257)) IN
  IF re[2] >= 0 THEN BLe(d, BShl(m, re[2])) ELSE BLe(BShl(d, -re[2]), m)
=============================================================================
