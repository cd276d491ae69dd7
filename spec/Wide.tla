-------------------------------- MODULE Wide --------------------------------
(* Exact fixed-point arithmetic beyond TLC's 32-bit integers.

   A wide number is <<h, m, l>> and denotes  h*B^2 + m*B + l  with B = 2^15,
   0 <= m, l < B and h any (signed) TLC integer, so it spans about 61 bits.
   Native operands of WMul must satisfy |a| <= 2^30.

   Scales used by all specifications:
     Q  quantities (MW, MW/h)        1e5
     P  prices ($/MWh)               1e5
     K  coefficients, loss factors   1e6                                      *)
EXTENDS Integers, Sequences, SequencesExt

B == 32768
Q == 100000
P == 100000
K == 1000000

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

WNorm(h, m, l) ==
  LET m1 == m + (l \div B) IN << h + (m1 \div B), m1 % B, l % B >>

W(n) == WNorm(n \div (B * B), (n \div B) % B, n % B)
WZero == << 0, 0, 0 >>

WAdd(a, b) == WNorm(a[1] + b[1], a[2] + b[2], a[3] + b[3])
WNeg(a)    == WNorm(-a[1], -a[2], -a[3])
WSub(a, b) == WNorm(a[1] - b[1], a[2] - b[2], a[3] - b[3])

WMul(a, b) ==
  LET a1 == a \div B   a0 == a % B
      b1 == b \div B   b0 == b % B
      l0 == a0 * b0
      m0 == a1 * b0
      m1 == a0 * b1
      ms == (m0 % B) + (m1 % B) + (l0 \div B)
  IN << a1 * b1 + (m0 \div B) + (m1 \div B) + (ms \div B), ms % B, l0 % B >>

\* wide times a native integer 0 <= k <= B
WScale(a, k) == WNorm(a[1] * k + ((a[2] * k) \div B), ((a[2] * k) % B), a[3] * k)

\* floor division of a wide number by 1 <= d <= B
WDiv(a, d) ==
  LET h == a[1] \div d   rh == a[1] % d
      xm == rh * B + a[2]
      m == xm \div d     rm == xm % d
      xl == rm * B + a[3]
      l == xl \div d
  IN WNorm(h, m, l)

WLe(a, b) == \/ a[1] < b[1]
             \/ a[1] = b[1] /\ a[2] < b[2]
             \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] <= b[3]
WLt(a, b) == ~ WLe(b, a)
WMin(a, b) == IF WLe(a, b) THEN a ELSE b
WMax(a, b) == IF WLe(a, b) THEN b ELSE a
WAbs(a) == IF a[1] < 0 THEN WNeg(a) ELSE a

WSum(s) == FoldLeft(WAdd, WZero, s)

\* back to a native integer; callers only use it on values known to fit
N(a) == a[1] * (B * B) + a[2] * B + a[3]

\* a*b/d rounded to nearest, for 1 <= d <= 2^30; the exact quotient must fit a native integer
Bits == [i \in 1..60 |-> 60 - i]
DivStep(a, d, acc, k) ==
  \* one step of restoring division, most significant bit first
  LET limb == k \div 15
      src  == IF limb = 0 THEN a[3] ELSE IF limb = 1 THEN a[2]
              ELSE IF limb = 2 THEN a[1] % B ELSE a[1] \div B
      r    == acc[2] * 2 + ((src \div (2 ^ (k % 15))) % 2)
  IN IF r >= d THEN << acc[1] * 2 + 1, r - d >> ELSE << acc[1] * 2, r >>
DivBig(a, d) == FoldLeft(LAMBDA acc, k : DivStep(a, d, acc, k), << 0, 0 >>, Bits)[1]

DivNN(a, d) == IF d <= B THEN N(WDiv(a, d)) ELSE DivBig(a, d)

MulDiv(a, b, d) ==
  LET sg == (IF a < 0 THEN -1 ELSE 1) * (IF b < 0 THEN -1 ELSE 1) * (IF d < 0 THEN -1 ELSE 1)
      w  == WAdd(WMul(Abs(a), Abs(b)), W(Abs(d) \div 2))
  IN sg * DivNN(w, Abs(d))
=============================================================================
