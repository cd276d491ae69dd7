-------------------------------- MODULE Grid --------------------------------
(* Two small families of markets whose least cost and marginal prices are found
   by looking at every dispatch in whole steps: no duality, no solver.

   net : units A (may be capped) and B (generator or load) in region N, C in S, joined by
         an interconnector of limit fl in both directions
   co  : units A and B in one region offer energy and a raise reserve which share
         the room below emax; reserve requirement F

   All quantities are in steps of 10 MW and all prices in $/MWh.  In both families the
   constraints form a network, so the least cost over all dispatches is reached in whole
   steps, and the least cost is linear between neighbouring demands: comparing with the
   eight neighbours of the demand decides whether prices are marginal.  MCGrid checks
   the optimisation problem and the bounds of Market against this. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

St == 10                                                     \* MW per step
Inf == 100000000
Ab(x) == IF x < 0 THEN -x ELSE x
Least(S) == IF S = {} THEN Inf ELSE CHOOSE x \in S : \A y \in S : x <= y

\* penalty of missing an equality by x steps, if that is allowed
Pen(ec, x) == IF x = 0 THEN 0 ELSE IF ec < 0 THEN Inf ELSE ec * Ab(x)
PenUp(ec, x) == IF x >= 0 THEN 0 ELSE IF ec < 0 THEN Inf ELSE ec * (-x)
Tot(s) == IF \E i \in 1..Len(s) : s[i] >= Inf THEN Inf ELSE LET f[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE f[i-1] + s[i] IN f[Len(s)]

TopA(c) == IF c.cap >= 0 /\ c.cap < c.v[1] THEN c.cap ELSE c.v[1]
SgB(c) == IF c.dtb = "load" THEN -1 ELSE 1
NetCost(c, x, s1, s2) ==
  Tot(<< c.p[1] * x[1], SgB(c) * c.p[2] * x[2], c.p[3] * x[3],
         Pen(c.ec, x[1] + SgB(c) * x[2] - x[4] - (c.d[1] + s1)), Pen(c.ec, x[3] + x[4] - (c.d[2] + s2)) >>)
NetAll(c) == {<< a, b, g, f >> : a \in 0..TopA(c), b \in 0..c.v[2], g \in 0..c.v[3], f \in (-c.fl)..c.fl}

CoCost(c, x, s1, s2) ==
  Tot(<< c.p[1] * x[1], c.p[2] * x[2], c.rp[1] * x[3], c.rp[2] * x[4],
         Pen(c.ec, x[1] + x[2] - (c.d[1] + s1)), PenUp(c.fe, x[3] + x[4] - (c.d[2] + s2)) >>)
CoAll(c) == {x \in {<< a, b, r, t >> : a \in 0..c.v[1], b \in 0..c.v[2], r \in 0..c.rv[1], t \in 0..c.rv[2]} :
               x[1] + x[3] <= c.em[1] /\ x[2] + x[4] <= c.em[2]}

All(c) == IF c.k = "net" THEN NetAll(c) ELSE CoAll(c)
Cost(c, x, s1, s2) == IF c.k = "net" THEN NetCost(c, x, s1, s2) ELSE CoCost(c, x, s1, s2)
V(c, s1, s2) == Least({Cost(c, x, s1, s2) : x \in All(c)})
Best(c) == {x \in All(c) : Cost(c, x, 0, 0) = V(c, 0, 0)}
Near == {<< i, j >> : i \in {-1, 0, 1}, j \in {-1, 0, 1}} \ {<< 0, 0 >>}
Around(c) == [s \in Near |-> V(c, s[1], s[2])]
\* p: prices in units of 1/1000 $/MWh; v, w: the least cost at the demand and around it
Supports(v, w, p, tol) == \A s \in Near : w[s] >= Inf \/ 1000 * (w[s] - v) + tol >= p[1] * s[1] + p[2] * s[2]

(*----------------------------- clauses on a report ---------------------------*)
Fl(cl, wh, got, want) == [cl |-> cl, wh |-> wh, got |-> got, want |-> want]
\* o: [st, obj (cents), p (1/1000 $), q (kW, in the order of the variables)]
Judge(c, o) ==
  LET v == V(c, 0, 0) IN
  IF v >= Inf THEN (IF o.st = "infeasible" THEN << >> ELSE << Fl("dispatched-infeasible-market", o.st, 0, 0) >>)
  ELSE IF o.st = "infeasible" THEN << Fl("refused-feasible-market", "grid", 0, 0) >>
  ELSE IF o.st # "ok" THEN << Fl("error", o.msg, 0, 0) >>
  ELSE (IF Ab(o.obj - v * St * 100) > 5 THEN << Fl(IF o.obj > v * St * 100 THEN "not-least-cost" ELSE "objective", "grid", o.obj, v * St * 100) >> ELSE << >>)
    \o (IF Supports(v, Around(c), o.p, 3) THEN << >> ELSE << Fl("prices-not-marginal", "grid", o.p[1], o.p[2]) >>)
=============================================================================
