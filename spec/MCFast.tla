------------------------------- MODULE MCFast --------------------------------
(* A fast start unit over many intervals: every profile with lengths from Lens, from
   every place in it, committed or not by the dispatch of each interval. The states are
   written out (-dump); the real code is asked for the two successors of each. *)
EXTENDS Units
CONSTANT Lens
VARIABLES f, m, t
vars == << f, m, t >>
C == [intervention |-> FALSE]
Len0(k) == CASE k = 1 -> f.t1 [] k = 2 -> f.t2 [] k = 3 -> f.t3 [] k = 4 -> f.t4
F(mm, tt) == [f EXCEPT !.mode = mm, !.t = tt]
Init == \E a, b, c, d \in Lens :
  /\ f = [t1 |-> a, t2 |-> b, t3 |-> c, t4 |-> d, mode |-> 0, t |-> 0, wmode |-> << >>, wtime |-> << >>, min |-> 20]
  /\ m \in 0..4 /\ t \in 0..(IF m = 0 THEN 0 ELSE CHOOSE x \in Lens : \A y \in Lens : y <= x)
  /\ m > 0 => t <= (CASE m = 1 -> a [] m = 2 -> b [] m = 3 -> c [] m = 4 -> d)
Interval(on) == LET a == Advance(C, F(m, t), on) IN m' = a.mode /\ t' = a.t /\ f' = f
Next == \E on \in BOOLEAN : Interval(on)
Spec == Init /\ [][Next]_vars
(* minutes since commitment *)
Place(mm, tt) == tt + (IF mm > 1 THEN f.t1 ELSE 0) + (IF mm > 2 THEN f.t2 ELSE 0) + (IF mm > 3 THEN f.t3 ELSE 0)
Total == f.t1 + f.t2 + f.t3 + f.t4
InProfile == m \in 0..4 /\ t >= 0 /\ (IF m = 0 THEN t = 0 ELSE t <= Len0(m))
(* five minutes pass in every interval, no more and no less, until the end of the profile *)
FiveMinutes == [][(m > 0 \/ m' > 0) => Place(m', t') = (IF Place(m, t) + 5 > Total THEN Total ELSE Place(m, t) + 5)]_vars
OnlyForward == [][m' >= m /\ (m = m' => t' >= t)]_vars
(* the minutes since mode two ended are those spent in modes three and four *)
SinceTwo == \A on \in BOOLEAN : LET a == Advance(C, F(m, t), on) IN
  (m <= 2 /\ a.mode \in {3, 4} => ~Absent(a.two) /\ The(a.two) = Place(m, t) + 5 - f.t1 - f.t2) /\ (m \in {3, 4} => Absent(a.two))
=============================================================================
