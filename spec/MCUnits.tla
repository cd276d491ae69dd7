------------------------------- MODULE MCUnits -------------------------------
(* One offer at a time: trapezia, telemetered limits and rates, forecasts, starting points and
   capacities from small menus. Invariants of the scaling; every state is written out and handed
   to the real code. *)
EXTENDS Units, Json, IOUtils
CONSTANT Big
Traps == {<< 0, 0, 40, 40 >>, << 8, 20, 52, 80 >>, << 8, 8, 52, 80 >>, << 8, 20, 80, 80 >>, << 40, 40, 40, 40 >>} \cup (IF Big THEN {<< 0, 12, 12, 60 >>, << 4, 44, 48, 52 >>} ELSE {})
Mins == {<< >>, << 0 >>, << 16 >>} \cup (IF Big THEN {<< 8 >>, << 44 >>} ELSE {})
Maxs == {<< >>, << 0 >>, << 60 >>} \cup (IF Big THEN {<< 20 >>, << 80 >>} ELSE {})
Rates == {<< >>, << 0 >>, << 36 >>, << 600 >>} \cup (IF Big THEN {<< 72 >>} ELSE {})
Uigfs == {<< >>, << 48 >>, << 0 >>} \cup (IF Big THEN {<< 40 >>, << 80 >>} ELSE {})
Starts == {-2, 0, 16, 40, 60} \cup (IF Big THEN {8, 80} ELSE {})
Caps == {<< 4 >>, << 200 >>, << >>}
VARIABLE s
Init == \E tr \in Traps, mx \in {6, 24}, st \in Starts :
  s \in {[tr |-> tr, max |-> mx, rmin |-> << >>, rmax |-> << >>, rate |-> << >>, uigf |-> g, init |-> st, agc |-> 0, ty |-> "R6SE", cap |-> cap]
           : g \in Uigfs, cap \in Caps}
   \cup {[tr |-> tr, max |-> mx, rmin |-> a, rmax |-> b, rate |-> r, uigf |-> g, init |-> st, agc |-> 1, ty |-> ty, cap |-> << 200 >>]
           : a \in Mins, b \in Maxs, r \in Rates, g \in {x \in Uigfs : Big \/ x # << 0 >>}, ty \in {"R5RE", "L5RE"}}
   \cup {[tr |-> tr, max |-> mx, rmin |-> << >>, rmax |-> << >>, rate |-> << 36 >>, uigf |-> << >>, init |-> st, agc |-> 0, ty |-> "L5RE", cap |-> << 200 >>]}
Next == FALSE /\ s' = s
Spec == Init /\ [][Next]_s
No == << >>
Bid(x) == [ty |-> x.ty, dir |-> "", max |-> x.max, emin |-> x.tr[1], lo |-> x.tr[2], hi |-> x.tr[3], emax |-> x.tr[4], vol |-> << 4 >>]
Unit(x) == LET up == x.ty # "L5RE" IN
  [id |-> "U", kind |-> "GENERATOR", init |-> x.init, whatif |-> x.init, agc |-> x.agc,
   up |-> IF up THEN x.rate ELSE No, dn |-> IF up THEN No ELSE x.rate, uigf |-> x.uigf,
   agcl |-> IF up THEN [rmin |-> x.rmin, rmax |-> x.rmax, lmin |-> No, lmax |-> No] ELSE [lmin |-> x.rmin, lmax |-> x.rmax, rmin |-> No, rmax |-> No],
   bids |-> << Bid(x) >> \o (IF x.cap = No THEN No ELSE << [Bid(x) EXCEPT !.ty = "ENOF", !.max = x.cap[1]] >>)]
C == [intervention |-> FALSE, late |-> TRUE]
B == Bid(s)
T == Scaled(Unit(s), B)
REq(a, b) == RLeq(a, b) /\ RLeq(b, a)
RMul(a, n) == << a[1] * n, a[2] >>
Shrinks == RLeq(T.max, W(B.max)) /\ RLeq(W(B.emin), T.emin) /\ RLeq(T.emax, W(B.emax))
Shoulders == RLeq(T.emin, T.lo) /\ RLeq(T.hi, T.emax)
(* both slopes are those of the offer *)
Slopes == /\ REq(RMul(RSub(T.lo, T.emin), B.max), << T.max[1] * (B.lo - B.emin), T.max[2] >>)
          /\ REq(RMul(RSub(T.emax, T.hi), B.max), << T.max[1] * (B.emax - B.hi), T.max[2] >>)
Untouched == s.rmin \in {No, << 0 >>} /\ s.rmax \in {No, << 0 >>} /\ s.rate \in {No, << 0 >>} /\ s.uigf = No => T = Trap(B)
(* an enabled offer leaves room for the unit where it stands *)
Stands == Enabled(C, Unit(s), B) => RLeq(T.emin, T.emax) /\ (s.uigf # No => s.init <= The(s.uigf))
=============================================================================
