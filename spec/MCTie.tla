------------------------------- MODULE MCTie -------------------------------
(* Exhaustive: all markets of three units in one region over a small grid.
   Checks that the specified outcome serves the demand, is least cost and treats
   tied bands alike; writes the cases out for replay on the real market. *)
EXTENDS TieBreak, Json, IOUtils

Vols == {10, 30}
Prc == {20, 40}
Unit(n, v, p, dt) == [u |-> n, r |-> "N", dt |-> dt, lf |-> 100, b |-> << v >>, p |-> << p >>]
Cases ==
  {[units |-> << Unit("A", v1, p1, "generator"), Unit("B", v2, p2, "generator"), Unit("C", v3, p3, dt) >>, dem |-> << [r |-> "N", d |-> d] >>] :
      v1 \in Vols, v2 \in Vols, v3 \in Vols, p1 \in Prc, p2 \in Prc, p3 \in {20, 40}, dt \in {"generator", "load"}, d \in {5, 12, 25, 37, 50}}
Ok == {c \in Cases : Feasible(c, "N")}

VARIABLE c
Init == c \in Ok
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

Sgn(i) == IF c.units[i].dt = "load" THEN -1 ELSE 1
Served == LET t == Sm([i \in 1..3 |-> Sgn(i) * Want(c, i)]) IN t - 1000 * c.dem[1].d \in -3..3
Within == \A i \in 1..3 : Want(c, i) >= 0 /\ Want(c, i) <= 1000 * c.units[i].b[1]
\* no band is used while a strictly cheaper source has room
Merit == \A i, j \in 1..3 :
   LET room(k) == IF c.units[k].dt = "load" THEN Want(c, k) ELSE 1000 * c.units[k].b[1] - Want(c, k)
       used(k) == IF c.units[k].dt = "load" THEN 1000 * c.units[k].b[1] - Want(c, k) ELSE Want(c, k)
   IN c.units[i].p[1] < c.units[j].p[1] => (used(j) = 0 \/ room(i) <= 2)
Alike == \A i, j \in 1..3 : (c.units[i].dt = c.units[j].dt /\ c.units[i].p = c.units[j].p /\ ~Mixed(c, "N"))
   => LET a == Want(c, i) * c.units[j].b[1]  b == Want(c, j) * c.units[i].b[1] IN a - b \in -60..60
ASSUME IF "VP_OUT" \in DOMAIN IOEnv THEN JsonSerialize(IOEnv.VP_OUT, [cases |-> SetToSeq(Ok)]) ELSE TRUE
=============================================================================
