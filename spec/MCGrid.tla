------------------------------- MODULE MCGrid -------------------------------
(* All markets of Grid over small grids of values.  Checked for each of them:
   the problem that Market derives has the brute-force optimum as an admissible
   dispatch of that cost, no multipliers prove more than the brute-force cost
   (soundness of the certificates used everywhere) and some multipliers taken
   from the prices prove exactly it (completeness), and those are the prices that
   support the neighbouring demands.  The cases are written out and replayed. *)
EXTENDS Market, Grid, Json, IOUtils
CONSTANTS Deep, Kinds

PS == {-10, 20, 50}
\* cases come in groups only so that TLC's workers share them
Groups == {x \in {<< "net", a, b, g, dt >> : a \in PS, b \in PS \ {-10}, g \in PS, dt \in {"generator", "load"}}
     \cup {<< "co", a, b, r >> : a \in PS, b \in {20, 50}, r \in {0, 15}} : x[1] \in Kinds}
CasesOf(g) ==
  IF g[1] = "net"
  THEN {[k |-> "net", p |-> << g[2], g[3], g[4] >>, v |-> << 2, 2, 3 >>, dtb |-> g[5], d |-> << dn, ds >>, fl |-> f, cap |-> cp, ec |-> e] :
         dn \in (IF Deep THEN 0..4 ELSE {0, 1, 3}), ds \in (IF Deep THEN 0..3 ELSE {1, 3}), f \in (IF Deep THEN {0, 1, 2} ELSE {1}),
         cp \in {-1, 1}, e \in {-1, 90}}
  ELSE {[k |-> "co", p |-> << g[2], g[3] >>, rp |-> << g[4], 4 >>, v |-> << 3, 2 >>, rv |-> << 2, 2 >>, em |-> << ea, 3 >>, d |-> << d, f >>, ec |-> e, fe |-> fe] :
         ea \in (IF Deep THEN {2, 3, 4} ELSE {3}), d \in (IF Deep THEN 0..5 ELSE {1, 3, 4}), f \in (IF Deep THEN 0..4 ELSE {2, 3}),
         e \in {-1, 90}, fe \in {-1, 30}}
Cases == UNION {CasesOf(g) : g \in Groups}

Info(c) ==
  << [u |-> "A", r |-> "N", dt |-> "generator", lf |-> K], [u |-> "B", r |-> "N", dt |-> IF c.k = "net" THEN c.dtb ELSE "generator", lf |-> K] >>
  \o (IF c.k = "net" THEN << [u |-> "C", r |-> "S", dt |-> "generator", lf |-> K] >> ELSE << >>)
Qs(n) == n * St * Q
Ps(n) == n * P
El(e) == IF e < 0 THEN NoEl ELSE [k |-> "num", c |-> Ps(e)]
Vol(c, i, sv, q) == [u |-> Info(c)[i].u, sv |-> sv, dt |-> Info(c)[i].dt, b |-> << Qs(q) >>]
Prc(c, i, sv, p) == [u |-> Info(c)[i].u, sv |-> sv, dt |-> Info(c)[i].dt, p |-> << Ps(p) >>]
Num(c) == Len(Info(c))
Events(c) ==
  << [ev |-> "new", iv |-> 5, regions |-> IF c.k = "net" THEN << "N", "S" >> ELSE << "N" >>, info |-> Info(c), nodt |-> FALSE, shuffle |-> FALSE,
      nolf |-> FALSE, noserv |-> FALSE],
     [ev |-> "vol", rows |-> [i \in 1..Num(c) |-> Vol(c, i, "energy", c.v[i])]
                             \o (IF c.k = "co" THEN [i \in 1..2 |-> Vol(c, i, "raise_6s", c.rv[i])] ELSE << >>)],
     [ev |-> "price", rows |-> [i \in 1..Num(c) |-> Prc(c, i, "energy", c.p[i])]
                             \o (IF c.k = "co" THEN [i \in 1..2 |-> Prc(c, i, "raise_6s", c.rp[i])] ELSE << >>)],
     [ev |-> "demand", rows |-> << [r |-> "N", d |-> Qs(c.d[1])] >> \o (IF c.k = "net" THEN << [r |-> "S", d |-> Qs(c.d[2])] >> ELSE << >>), el |-> El(c.ec)] >>
  \o (IF c.k = "net"
      THEN << [ev |-> "inter", rows |-> << [i |-> "I", l |-> "I", to |-> "S", fr |-> "N", mx |-> Qs(c.fl), mn |-> -Qs(c.fl), tlf |-> K, flf |-> K, gf |-> 1] >>, cols |-> FALSE] >>
           \o (IF c.cap >= 0 THEN << [ev |-> "cap", rows |-> << [u |-> "A", dt |-> "generator", q |-> Qs(c.cap)] >>, el |-> NoEl] >> ELSE << >>)
      ELSE << [ev |-> "fcas", rows |-> << [s |-> "F", r |-> "N", sv |-> "raise_6s", q |-> Qs(c.d[2]), ty |-> ">="] >>, el |-> El(c.fe), notype |-> FALSE],
              [ev |-> "jcap", rows |-> [i \in 1..2 |-> [u |-> Info(c)[i].u, sv |-> "raise_6s", dt |-> "generator", ma |-> Qs(1), emin |-> 0, lb |-> 0,
                                                        hb |-> Qs(c.em[i] - 1), emax |-> Qs(c.em[i])]], el |-> NoEl] >>)

VARIABLES g, c
None == [k |-> "none"]
Init == g \in Groups /\ c = None
Next == c = None /\ c' \in CasesOf(g) /\ g' = g
Spec == Init /\ [][Next]_<< g, c >>

Mk == FoldLeft(LAMBDA a, e : Apply(a, e), NewMarket(Events(c)[1]), Events(c))
Disp(i, sv, q) == [u |-> Info(c)[i].u, sv |-> sv, dt |-> Info(c)[i].dt, q |-> Qs(q)]
OutOf(x) == IF c.k = "net"
            THEN [disp |-> << Disp(1, "energy", x[1]), Disp(2, "energy", x[2]), Disp(3, "energy", x[3]) >>, flows |-> << [i |-> "I", l |-> "I", q |-> Qs(x[4]), ls |-> 0] >>]
            ELSE [disp |-> << Disp(1, "energy", x[1]), Disp(2, "energy", x[2]), Disp(1, "raise_6s", x[3]), Disp(2, "raise_6s", x[4]) >>, flows |-> << >>]
Goal == WScale(WMul(V(c, 0, 0) * St, 100000000), 100)        \* dollars in the scale P*Q

Feasible == c # None /\ V(c, 0, 0) < Inf
\* the optimum is admissible and costs in Market what it costs here
SameCost == Feasible =>
  \A x \in Best(c) :
    LET m == Mk  lp == Lp(m)  o == OutOf(x) IN
    /\ \A i \in 1..Len(lp.r) : lp.r[i].ec < 0 => Miss(lp.r[i].s, lp.r[i].b, RowAct(m, o, lp.r[i])) = WZero
    /\ CostOf(m, lp, o) = Goal

\* candidate multipliers: prices of the bids and penalties for the two requirements, the
\* capacity rows take what is left
Pen1 == IF c.ec >= 0 THEN {c.ec, -c.ec} ELSE {150, -150}
Top2 == IF c.fe >= 0 THEN c.fe ELSE 150
Y1 == {c.p[i] : i \in 1..Len(c.p)} \cup Pen1 \cup (IF c.k = "net" THEN {0} ELSE {c.p[i] + Top2 - c.rp[j] : i, j \in 1..2})
Y2 == IF c.k = "net" THEN Y1
      ELSE {0, Top2} \cup {c.rp[j] : j \in 1..2} \cup {c.rp[j] + y - c.p[i] : j, i \in 1..2, y \in Pen1 \cup {c.p[1], c.p[2]}}
Min0(x) == IF x > 0 THEN 0 ELSE x
\* what the shared room of the units is worth
Room(y) == LET one(i) == {0, Min0(c.rp[i] - y[2]), Min0(c.p[i] - y[1])} IN one(1) \X one(2)
Vec(lp, y, mu) ==
  [i \in 1..Len(lp.r) |->
     LET r == lp.r[i] IN
     CASE r.g = "demand" -> IF r.n = "N" THEN Ps(y[1]) ELSE Ps(y[2])
       [] r.g = "fcas" -> Ps(y[2])
       [] r.g = "unit_bid_capacity" -> Ps(Min0(c.p[1] - y[1]))
       [] r.g = "joint_capacity" /\ r.s = "<=" -> Ps(IF Has(r.tp, LAMBDA t : t.u = "A") THEN mu[1] ELSE mu[2])
       [] OTHER -> 0]
TheChoice(m) == CHOOSE ch \in Picks(m) : TRUE
Bd(m, lp, ch, y, mu) == LET p == Priced(lp, Vec(lp, y, mu), FALSE) IN BoundFor(m, lp, ch, p.b, p.t)
Duality ==
  Feasible =>
  LET m == Mk  lp == Lp(m)  goal == Goal  v == V(c, 0, 0)  w == Around(c)
      ch == TheChoice(m)
      try == {z \in UNION {{<< y, mu >> : mu \in IF c.k = "net" THEN {<< 0, 0 >>} ELSE Room(y)} : y \in Y1 \X Y2} : SoundMult(lp, Vec(lp, z[1], z[2]))}
      bd == [z \in try |-> Bd(m, lp, ch, z[1], z[2])]
      tight == {z[1] : z \in {x \in try : bd[x] = goal}}
  IN /\ \A z \in try : WLe(bd[z], goal)
     /\ tight # {}
     \* multipliers that prove the cost are prices that support the neighbours
     /\ \A y \in tight : Supports(v, w, << 1000 * y[1], 1000 * y[2] >>, 0)
ASSUME IF "VP_OUT" \in DOMAIN IOEnv THEN JsonSerialize(IOEnv.VP_OUT, [cases |-> SetToSeq({[c |-> x, ev |-> Events(x)] : x \in Cases})]) ELSE TRUE
=============================================================================
