------------------------------- MODULE MCWide -------------------------------
(* Self-check of the arithmetic every judgement rests on: identities over a
   set of boundary operands, exhaustively. *)
EXTENDS Wide, TLC
Ops == {0, 1, -1, 2, -2, 7, 100, -100, 32767, 32768, -32768, 32769, 65535, 99999, 100000, -100000, 1000003,
        -1000003, 12345678, -87654321, 536870912, 1073741823, -1073741823}
Small == {0, 1, -1, 5, -7, 100, -113, 3000, -3001, 46340}
Ds == {1, 2, 3, 7, 60, 1000, 32768, 99991, 1000000, 1073741823}
VARIABLE a, b, c
Init == a \in Ops /\ b \in Ops /\ c \in Ops
Next == UNCHANGED << a, b, c >>
Canonical(w) == w[2] \in 0..(B-1) /\ w[3] \in 0..(B-1)
Inv ==
  /\ N(W(a)) = a
  /\ Canonical(WMul(a, b))
  /\ WMul(a, b) = WMul(b, a)
  /\ WMul(-a, b) = WNeg(WMul(a, b))
  /\ WAdd(WMul(a, b), WMul(a, c)) = WAdd(WMul(a, c), WMul(a, b))
  /\ (Abs(b) <= 500000000 /\ Abs(c) <= 500000000) => WAdd(WMul(a, b), WMul(a, c)) = WMul(a, b + c)
  /\ WSub(WAdd(WMul(a, b), W(c)), W(c)) = WMul(a, b)
  /\ (a \in Small /\ b \in Small) => N(WMul(a, b)) = a * b
  /\ WLe(WMul(a, b), WMul(a, b))
  /\ (a > 0 /\ b < c) => WLt(WMul(a, b), WMul(a, c))
  /\ (a # 0 /\ Abs(a) < 1073741823 ) => MulDiv(b, a, a) = b
  /\ \A d \in {x \in Ds : x <= B} : WDiv(WScale(W(a), d), d) = W(a)
  /\ \A d \in Ds : (Abs(a) <= 30000 /\ Abs(b) <= 30000) =>
        MulDiv(a, b, d) = (IF a * b >= 0 THEN (a * b + d \div 2) \div d ELSE -((-(a * b) + d \div 2) \div d))
Spec == Init /\ [][Next]_<< a, b, c >>
=============================================================================
