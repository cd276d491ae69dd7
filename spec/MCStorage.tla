------------------------------ MODULE MCStorage ------------------------------
(* One storage unit at a time: trapezia of its two sides, where it starts, what it can do on each
   side, telemetered rates. Every state is written out and handed to the real code. *)
EXTENDS Units
CONSTANT Big
\* enablement min, low break point, high break point, enablement max
Gens == {<< >>, << 0, 20, 52, 80 >>, << 8, 8, 80, 80 >>, << -8, 0, 40, 60 >>} \cup (IF Big THEN {<< 0, 0, 0, 0 >>, << -20, -16, -8, -4 >>} ELSE {})
Loads == {<< >>, << -80, -52, -20, 0 >>, << -60, -60, -8, -8 >>, << -40, -20, 4, 12 >>} \cup (IF Big THEN {<< 4, 8, 12, 20 >>, << 0, 0, 0, 0 >>} ELSE {})
Starts == {-80, -60, -28, -8, -4, 0, 4, 8, 44, 60, 80} \cup (IF Big THEN {-44, 12, 96} ELSE {})
Caps == {<< >>, << 4 >>, << 200 >>} \cup (IF Big THEN {<< 0 >>} ELSE {})
VARIABLE s
Init == s \in {[gen |-> g, load |-> l, init |-> i, capg |-> cg, capl |-> cl, rate |-> r, agc |-> a, ty |-> ty, gmax |-> gm]
     : g \in Gens, l \in Loads, i \in Starts, cg \in {<< 4 >>, << 200 >>} \cup (IF Big THEN Caps ELSE {}), cl \in {<< 4 >>, << 200 >>} \cup (IF Big THEN Caps ELSE {}),
       r \in {<< >>, << 36 >>}, a \in {1} \cup (IF Big THEN {0} ELSE {}), ty \in {"R5RE", "L5RE"}, gm \in {24} \cup (IF Big THEN {0} ELSE {})}
  \cup {[gen |-> g, load |-> << >>, init |-> i, capg |-> cg, capl |-> cl, rate |-> << >>, agc |-> a, ty |-> "R6SE", gmax |-> 24]
     : g \in Gens \cup {<< -80, -40, 40, 80 >>, << -80, -60, -20, -8 >>}, i \in Starts, cg \in Caps, cl \in Caps, a \in {0, 1}}
Next == FALSE /\ s' = s
Spec == Init /\ [][Next]_s
No == << >>
Bid(tr, dir, ty, mx) == [ty |-> ty, dir |-> dir, max |-> mx, emin |-> tr[1], lo |-> tr[2], hi |-> tr[3], emax |-> tr[4], vol |-> << 4 >>]
Of(tr, dir, ty, mx) == IF tr = No THEN No ELSE << Bid(tr, dir, ty, mx) >>
Cap(o, dir) == IF o = No THEN No ELSE << Bid(<< 0, 0, 0, 0 >>, dir, "BDOF", o[1]) >>
U == [id |-> "U", kind |-> "BIDIRECTIONAL", init |-> s.init, whatif |-> s.init, agc |-> s.agc, up |-> s.rate, dn |-> s.rate, uigf |-> No,
      agcl |-> [rmin |-> No, rmax |-> No, lmin |-> No, lmax |-> No],
      bids |-> Of(s.gen, "GEN", s.ty, s.gmax) \o Of(s.load, "LOAD", s.ty, 24) \o Cap(s.capg, "GEN") \o Cap(s.capl, "LOAD")]
C == [intervention |-> FALSE, late |-> TRUE]
G == Bid(s.gen, "GEN", s.ty, s.gmax)
L == Bid(s.load, "LOAD", s.ty, 24)
Two == s.gen # No /\ s.load # No /\ s.gmax > 0
\* with both sides on offer the unit regulates over the whole range, and on both sides at once
Whole == Two /\ s.ty # "R6SE" /\ s.agc = 1 /\ s.capg = << 200 >> /\ s.capl = << 200 >> /\ s.gen[4] >= 0 /\ s.load[1] <= 0 =>
           (Enabled(C, U, G) <=> (s.load[1] <= s.init /\ s.init <= s.gen[4])) /\ (Enabled(C, U, L) <=> Enabled(C, U, G))
\* with one side only, over its own
Alone == s.gen # No /\ s.load = No /\ Enabled(C, U, G) => s.gen[1] <= s.init /\ s.init <= s.gen[4]
Off == s.agc = 0 /\ s.ty # "R6SE" => ~(s.gen # No /\ Enabled(C, U, G)) /\ ~(s.load # No /\ Enabled(C, U, L))
=============================================================================
