------------------------------- MODULE Big -------------------------------
(* Unbounded integers for TLC (whose own integers have 32 bits).  A number
   is a sequence <<sign, limb 1, limb 2, ...>>: sign -1, 0 or 1, magnitude
   limbs base 4096, least significant first, no leading zero limbs; zero is
   <<0>>.  This is also how traces write numbers. *)
EXTENDS Integers, Sequences, TLC
BBase == 4096
BMax(a, b) == IF a > b THEN a ELSE b
BZero == <<0>>
BIsNum(a) == /\ Len(a) >= 1 /\ a[1] \in {-1, 0, 1}
             /\ (a[1] = 0) <=> (Len(a) = 1)
             /\ \A i \in 2..Len(a) : a[i] \in 0..(BBase - 1)
             /\ Len(a) > 1 => a[Len(a)] > 0
\* signed i-th limb (1 = least significant)
BLimb(a, i) == IF i < Len(a) THEN a[1] * a[i + 1] ELSE 0
\* carry propagation over signed limbs; gives <<limbs in 0..B-1, final carry>>
RECURSIVE BCarry(_, _, _, _)
BCarry(s, i, c, acc) ==
  IF i > Len(s) THEN (IF c = 0 THEN <<acc, 0>> ELSE
                      IF c < 0 THEN <<acc, c>> ELSE
                      IF c < BBase THEN <<Append(acc, c), 0>> ELSE <<Append(Append(acc, c % BBase), c \div BBase), 0>>)
  ELSE LET t == s[i] + c IN BCarry(s, i + 1, t \div BBase, Append(acc, t % BBase))
RECURSIVE BStrip(_)
BStrip(m) == IF m = <<>> THEN m ELSE IF m[Len(m)] = 0 THEN BStrip(SubSeq(m, 1, Len(m) - 1)) ELSE m
BMake(limbs) ==      \* limbs: signed, magnitudes below 2^30
  LET p == TLCEval(BCarry(limbs, 1, 0, <<>>)) IN
  IF p[2] < 0 THEN LET q == BStrip(TLCEval(BCarry([i \in 1..Len(limbs) |-> -limbs[i]], 1, 0, <<>>))[1]) IN <<-1>> \o q
  ELSE LET q == TLCEval(BStrip(p[1])) IN IF q = <<>> THEN BZero ELSE <<1>> \o q
BAdd(a, b) == BMake(TLCEval([i \in 1..(BMax(Len(a), Len(b)) - 1) |-> BLimb(a, i) + BLimb(b, i)]))
BSub(a, b) == BMake(TLCEval([i \in 1..(BMax(Len(a), Len(b)) - 1) |-> BLimb(a, i) - BLimb(b, i)]))
BNeg(a) == [a EXCEPT ![1] = -a[1]]
BAbs(a) == IF a[1] < 0 THEN BNeg(a) ELSE a
RECURSIVE BConv(_, _, _, _, _)
BConv(a, b, k, i, acc) == IF i > k \/ i >= Len(a) THEN acc ELSE BConv(a, b, k, i + 1, acc + a[i + 1] * (IF k + 1 - i < Len(b) THEN b[k + 2 - i] ELSE 0))
BMul(a, b) ==
  IF a[1] = 0 \/ b[1] = 0 THEN BZero
  ELSE <<a[1] * b[1]>> \o BStrip(TLCEval(BCarry(TLCEval([k \in 1..(Len(a) + Len(b) - 3) |-> BConv(a, b, k, 1, 0)]), 1, 0, <<>>))[1])
RECURSIVE BCmpMag(_, _, _)
BCmpMag(a, b, i) == IF i < 2 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE BCmpMag(a, b, i - 1)
BCmp(a, b) ==
  IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
  ELSE IF Len(a) # Len(b) THEN (IF (Len(a) < Len(b)) = (a[1] > 0) THEN -1 ELSE 1)
  ELSE a[1] * BCmpMag(a, b, Len(a))
BLt(a, b) == BCmp(a, b) < 0
BLe(a, b) == BCmp(a, b) <= 0
BMin2(a, b) == IF BLe(a, b) THEN a ELSE b
BMax2(a, b) == IF BLe(a, b) THEN b ELSE a
BSgn(a) == a[1]
BSq(a) == BMul(a, a)
BTwice(a) == BAdd(a, a)
\* a TLA+ integer (below 2^30 in magnitude) as a Big
BInt(n) == BMake(<<n>>)
RECURSIVE BPow2(_)
BPow2(k) == IF k < 12 THEN BInt(2^k) ELSE <<1>> \o [i \in 1..(k \div 12) |-> 0] \o <<2^(k % 12)>>
BShl(a, k) == BMul(a, BPow2(k))
\* q is the quotient of a by b rounded towards zero
BIsTruncQuot(a, b, q) ==
  LET r == BSub(BAbs(a), BMul(BAbs(q), BAbs(b))) IN
  BSgn(r) >= 0 /\ BLt(r, BAbs(b)) /\ BSgn(q) \in {0, BSgn(a) * BSgn(b)}
\* q is a/b (b > 0) rounded to the nearest integer, halves upwards
BIsRound(a, b, q) ==
  LET n == BAdd(BTwice(a), b)  d == BTwice(b)  lo == BMul(q, d) IN BLe(lo, n) /\ BLt(n, BAdd(lo, d))
\* r, in units of 1/2^k, is within one unit of the square root of the rational n/d (d > 0)
BIsSqrt(n, d, r, k) ==
  LET t == BMul(n, BPow2(2 * k))  u == BAdd(r, <<1, 1>>)  v == BSub(r, <<1, 1>>) IN
  /\ BLe(t, BMul(d, BSq(u)))
  /\ BSgn(v) <= 0 \/ BLe(BMul(d, BSq(v)), t)
=============================================================================
