------------------------------- MODULE Market -------------------------------
(* The spot market as a state machine.

   State: everything a caller has put into force so far (`mk`): unit
   information, bids, named groups of constraint rows with their elasticity,
   interconnectors, loss models and the terms linked to generic constraints.
   Transitions: one per public call (Apply). A call replaces what an earlier
   call of the same kind put in force and touches nothing else.

   From a market state the specification derives the optimisation problem that
   dispatch has to solve (Lp), and independently of any solver says
     - which reported dispatches are admissible        (row violations, bounds)
     - what a reported dispatch costs                  (CostOf)
     - when a bound on the cost of EVERY admissible dispatch is proven
       (Bound: a Lagrangian bound, valid for any multipliers whatever)
     - when reported prices are marginal values        (Bound with the reported
       prices as the multipliers of the balance rows).
   Nothing here depends on how the implementation builds or solves its model. *)
EXTENDS Wide, TLC, FiniteSets

Map(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
Cat(ss) == FlattenSeq(ss)
Has(s, T(_)) == \E i \in 1..Len(s) : T(s[i])
First(s, T(_)) == s[CHOOSE i \in 1..Len(s) : T(s[i]) /\ \A j \in 1..(i-1) : ~T(s[j])]
SumN(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

NoEl == [k |-> "none"]
NoGroup == [rows |-> << >>, el |-> NoEl]
GroupNames == << "unit_bid_capacity", "uigf_capacity", "ramp_up", "ramp_down",
   "bidirectional_ramp_up", "bidirectional_ramp_down", "fast_start", "demand", "fcas",
   "fcas_max_availability", "joint_ramping_raise_reg", "joint_ramping_lower_reg",
   "joint_ramping_raise_reg_bdu", "joint_ramping_lower_reg_bdu", "joint_capacity",
   "energy_and_regulation_capacity", "generic", "tie_break" >>

NewMarket(e) ==
  [iv |-> e.iv, info |-> e.info, vol |-> << >>, prc |-> << >>,
   g |-> [n \in Range(GroupNames) |-> NoGroup],
   inter |-> << >>, loss |-> << >>,
   gu |-> << >>, gr |-> << >>, gi |-> << >>, tie |-> [on |-> FALSE, cost |-> 0]]

IsBdu(mk, u) == \E i, j \in 1..Len(mk.info) : i # j /\ mk.info[i].u = u /\ mk.info[j].u = u
InfoOf(mk, u, dt) == First(mk.info, LAMBDA x : x.u = u /\ x.dt = dt)
KnownUnit(mk, u, dt) == Has(mk.info, LAMBDA x : x.u = u /\ x.dt = dt)

(*------------------------------ row templates ------------------------------*)
Row(n, s, b, t) == [n |-> n, s |-> s, b |-> b, t |-> t, cov |-> << >>]
U(u, sv, dt, a) == [k |-> "u", u |-> u, sv |-> sv, dt |-> dt, a |-> a]
R(r, sv, a)     == [k |-> "r", r |-> r, sv |-> sv, a |-> a]
S(set)          == [k |-> "s", s |-> set]

PerHour(mk, rate) == MulDiv(rate, mk.iv, 60)

CapacityRows(mk, rows) ==
  Map(LAMBDA x : Row(x.u \o "/" \o x.dt, "<=", x.q,
        << U(x.u, "energy", x.dt, IF IsBdu(mk, x.u) /\ x.dt = "load" THEN -K ELSE K) >>), rows)

UigfRows(rows) == Map(LAMBDA x : Row(x.u, "<=", x.q, << U(x.u, "energy", "generator", K) >>), rows)

(* ramping: bid rates capped by telemetered (SCADA) rates when present; -1 = no value *)
Cap(bid, scada) == IF scada < 0 THEN bid ELSE Min2(bid, scada)
ScadaOf(sc, u, f(_)) == IF Has(sc, LAMBDA y : y.u = u) THEN f(First(sc, LAMBDA y : y.u = u)) ELSE -1

FsModeStart(fs, u) == Has(fs, LAMBDA y : y.u = u /\ y.cm \in {0, 1, 2})
FsModeEnd(fs, u)   == Has(fs, LAMBDA y : y.u = u /\ y.em \in {0, 1, 2})
FsLate(fs, u)      == Has(fs, LAMBDA y : y.u = u /\ y.t2e >= 0)

Ramping(run, fs, u) ==
  CASE run = "fast_start_first_run"  -> ~ FsModeStart(fs, u)
    [] run = "fast_start_second_run" -> ~ FsModeEnd(fs, u)
    [] OTHER -> TRUE

\* highest output reachable: normally initial + rate*interval; a unit which left mode
\* two inside the interval restarts from min loading at that moment.  Minutes are x10.
RampTop(mk, run, fs, u, init, up) ==
  IF run = "fast_start_second_run" /\ FsLate(fs, u)
  THEN LET p == First(fs, LAMBDA y : y.u = u) IN p.ml + MulDiv(up, p.t2e, 600)
  ELSE init + PerHour(mk, up)

RampUpRows(mk, e) ==
  LET nb == SelectSeq(e.rows, LAMBDA x : ~ IsBdu(mk, x.u) /\ Ramping(e.run, e.fs, x.u))
  IN Map(LAMBDA x : Row(x.u \o "/" \o x.dt, "<=",
            RampTop(mk, e.run, e.fs, x.u, x.init, Cap(x.up, ScadaOf(e.scada, x.u, LAMBDA y : y.up))),
            << U(x.u, "energy", x.dt, K) >>), nb)
RampDownRows(mk, e) ==
  LET nb == SelectSeq(e.rows, LAMBDA x : ~ IsBdu(mk, x.u) /\ Ramping(e.run, e.fs, x.u))
  IN Map(LAMBDA x : Row(x.u \o "/" \o x.dt, ">=",
            x.init - PerHour(mk, Cap(x.dn, ScadaOf(e.scada, x.u, LAMBDA y : y.dn))),
            << U(x.u, "energy", x.dt, K) >>), nb)

\* a bidirectional unit moves along one axis (net output); away from zero it uses the
\* rate of the side it is on, and if it reaches zero inside the interval it continues with
\* the rate of the other side for the time left.
CrossTop(mk, init, dnLoad, upGen) ==
  IF init >= 0 THEN init + PerHour(mk, upGen)
  ELSE IF dnLoad = 0 THEN init
  ELSE IF PerHour(mk, dnLoad) <= -init THEN init + PerHour(mk, dnLoad)
  ELSE PerHour(mk, upGen) - MulDiv(-init, upGen, dnLoad)
NetRows(mk, e, dir) ==
  LET gens == SelectSeq(e.rows, LAMBDA x : IsBdu(mk, x.u) /\ x.dt = "generator")
      One(g) ==
        LET ld  == First(e.rows, LAMBDA x : x.u = g.u /\ x.dt = "load")
            lim == IF dir = "up" THEN CrossTop(mk, g.init, ld.dn, g.up)
                                 ELSE -CrossTop(mk, -g.init, g.dn, ld.up)
            sr  == IF dir = "up" THEN ScadaOf(e.scada, g.u, LAMBDA y : y.up)
                                 ELSE ScadaOf(e.scada, g.u, LAMBDA y : y.dn)
            scl == IF dir = "up" THEN g.init + PerHour(mk, sr) ELSE g.init - PerHour(mk, sr)
            b   == IF sr < 0 THEN lim ELSE IF dir = "up" THEN Min2(lim, scl) ELSE Max2(lim, scl)
        IN Row(g.u, IF dir = "up" THEN "<=" ELSE ">=", b,
               << U(g.u, "energy", "generator", K), U(g.u, "energy", "load", K) >>)
  IN Map(One, gens)

(* fast-start profile at the end of the interval *)
FastRows(mk, rows) ==
  LET One(x) ==
        LET dts == SelectSeq(mk.info, LAMBDA i : i.u = x.u)
            mkr(tag, s, b) == Map(LAMBDA i : Row(x.u \o "/" \o i.dt \o tag, s, b, << U(x.u, "energy", i.dt, K) >>), dts)
        IN CASE x.em \in {0, 1} -> mkr("max", "<=", 0)
             [] x.em = 2 -> mkr("min", ">=", MulDiv(x.ml, x.t, x.t2)) \o mkr("max", "<=", MulDiv(x.ml, x.t, x.t2))
             [] x.em = 3 -> mkr("min", ">=", x.ml)
             [] x.em = 4 -> mkr("min", ">=", x.ml - MulDiv(x.ml, x.t, x.t4))
             [] OTHER -> << >>
  IN Cat(Map(One, rows))

DemandRows(rows) == Map(LAMBDA x : [Row(x.r, "=", x.d, << R(x.r, "energy", K) >>) EXCEPT !.cov = << << x.r, "energy" >> >>], rows)

\* the rows of one requirement set form one constraint over all the regions and services it lists
FcasRows(rows) ==
  LET firsts == SelectSeq([i \in 1..Len(rows) |-> [x |-> rows[i], i |-> i]],
                          LAMBDA z : ~ \E j \in 1..(z.i - 1) : rows[j].s = z.x.s)
      One(z) == LET m == SelectSeq(rows, LAMBDA y : y.s = z.x.s)
                IN [Row(z.x.s, z.x.ty, z.x.q, Map(LAMBDA y : R(y.r, y.sv, K), m) \o << S(z.x.s) >>)
                     EXCEPT !.cov = Map(LAMBDA y : << y.r, y.sv >>, m)]
  IN Map(One, firsts)

MaxAvailRows(rows) ==
  Map(LAMBDA x : Row(x.u \o "/" \o x.sv \o "/" \o x.dt, "<=", x.q, << U(x.u, x.sv, x.dt, K) >>), rows)

BidsFor(mk, sv) == \* sides with at least one band offered
  SelectSeq(mk.vol, LAMBDA v : v.sv = sv /\ \E j \in 1..Len(v.b) : v.b[j] >= 10)

JointRampRows(mk, e, sv, bdu) ==
  LET sides == SelectSeq(BidsFor(mk, sv), LAMBDA v : Has(e.rows, LAMBDA x : x.u = v.u)
                                             /\ Ramping(e.run, e.fs, v.u) /\ IsBdu(mk, v.u) = bdu)
      Lim(v) == First(e.rows, LAMBDA x : x.u = v.u)
      top(x)  == RampTop(mk, e.run, e.fs, x.u, x.init, x.up)
      One(v) ==
        LET x == Lim(v) IN
        IF sv = "raise_reg"
        THEN IF v.dt = "generator"
             THEN Row(v.u \o "/" \o v.dt, "<=", top(x), << U(v.u, "energy", v.dt, K), U(v.u, sv, v.dt, K) >>)
             ELSE Row(v.u \o "/" \o v.dt, ">=", x.init - (top(x) - x.init),
                      << U(v.u, "energy", v.dt, K), U(v.u, sv, v.dt, -K) >>)
        ELSE IF v.dt = "generator"
             THEN Row(v.u \o "/" \o v.dt, ">=", x.init - PerHour(mk, x.dn),
                      << U(v.u, "energy", v.dt, K), U(v.u, sv, v.dt, -K) >>)
             ELSE Row(v.u \o "/" \o v.dt, "<=", x.init + PerHour(mk, x.dn),
                      << U(v.u, "energy", v.dt, K), U(v.u, sv, v.dt, K) >>)
      first == SelectSeq([i \in 1..Len(sides) |-> [v |-> sides[i], i |-> i]],
                          LAMBDA z : ~ \E j \in 1..(z.i - 1) : sides[j].u = z.v.u)
      Net(z) ==
        LET x == Lim(z.v)
            sd == SelectSeq(sides, LAMBDA v : v.u = z.v.u)
            t  == << U(z.v.u, "energy", "generator", K), U(z.v.u, "energy", "load", K) >>
                  \o Map(LAMBDA v : U(v.u, sv, v.dt, IF sv = "raise_reg" THEN K ELSE -K), sd)
        IN IF sv = "raise_reg" THEN Row(z.v.u, "<=", top(x), t)
           ELSE Row(z.v.u, ">=", x.init - PerHour(mk, x.dn), t)
  IN IF bdu THEN Map(Net, first) ELSE Map(One, sides)

Upper(x) == MulDiv(x.emax - x.hb, K, x.ma)
Lower(x) == MulDiv(x.lb - x.emin, K, x.ma)

\* contingency reserve shares headroom and footroom with energy and regulation
JointCapRows(mk, rows) ==
  LET One(x) ==
        LET b  == IsBdu(mk, x.u)
            up == IF x.dt = "generator" THEN "raise_reg" ELSE "lower_reg"
            dn == IF x.dt = "generator" THEN "lower_reg" ELSE "raise_reg"
            lt == IF b THEN << U(x.u, "energy", "load", K) >> ELSE << >>
            lu == IF b THEN << U(x.u, up, "load", K) >> ELSE << >>
            ll == IF b THEN << U(x.u, dn, "load", -K) >> ELSE << >>
            nm == x.u \o "/" \o x.sv \o "/" \o x.dt
        IN << Row(nm \o "/upper", "<=", x.emax,
                  << U(x.u, "energy", x.dt, K), U(x.u, x.sv, x.dt, Upper(x)), U(x.u, up, x.dt, K) >> \o lt \o lu),
              Row(nm \o "/lower", ">=", x.emin,
                  << U(x.u, "energy", x.dt, K), U(x.u, x.sv, x.dt, -Lower(x)), U(x.u, dn, x.dt, -K) >> \o lt \o ll) >>
  IN Cat(Map(One, rows))

EnergyRegRows(rows) ==
  LET One(x) ==
        LET nm == x.u \o "/" \o x.sv \o "/" \o x.dt IN
        << Row(nm \o "/upper", "<=", x.emax, << U(x.u, "energy", x.dt, K), U(x.u, x.sv, x.dt, Upper(x)) >>),
           Row(nm \o "/lower", ">=", x.emin, << U(x.u, "energy", x.dt, K), U(x.u, x.sv, x.dt, -Lower(x)) >>) >>
  IN Cat(Map(One, rows))

GenericRows(rows) == Map(LAMBDA x : Row(x.s, x.ty, x.rhs, << S(x.s) >>), rows)

(*------------------------------- transitions -------------------------------*)
Put(mk, n, rows, el) == [mk EXCEPT !.g[n] = [rows |-> rows, el |-> el]]
\* a group keeps its earlier rows when the new call gives none for it
PutIf(mk, n, rows, el) == IF rows = << >> THEN mk ELSE Put(mk, n, rows, el)

Apply(mk, e) ==
  CASE e.ev = "new"    -> NewMarket(e)
    [] e.ev = "vol"    -> [mk EXCEPT !.vol = e.rows]
    [] e.ev = "price"  -> [mk EXCEPT !.prc = e.rows]
    [] e.ev = "cap"    -> Put(mk, "unit_bid_capacity", CapacityRows(mk, e.rows), e.el)
    [] e.ev = "uigf"   -> Put(mk, "uigf_capacity", UigfRows(e.rows), e.el)
    [] e.ev = "ramp"   -> LET m1 == Put(mk, "ramp_up", RampUpRows(mk, e), e.el)
                              m2 == Put(m1, "ramp_down", RampDownRows(mk, e), e.el)
                              m3 == Put(m2, "bidirectional_ramp_up", NetRows(mk, e, "up"), e.el)
                          IN Put(m3, "bidirectional_ramp_down", NetRows(mk, e, "down"), e.el)
    \* the ramping limits of a time sequential model: from the seed outputs, or (rows given an
    \* initial output by the trace) from the dispatch of the interval before
    [] e.ev \in {"seed", "chain"} ->
         LET e2 == [ev |-> "ramp", rows |-> e.rows, scada |-> << >>, fs |-> << >>, run |-> "no_fast_start_units", el |-> e.el]
             m1 == Put(mk, "ramp_up", RampUpRows(mk, e2), e.el)
             m2 == Put(m1, "ramp_down", RampDownRows(mk, e2), e.el)
             m3 == Put(m2, "bidirectional_ramp_up", << >>, e.el)
         IN Put(m3, "bidirectional_ramp_down", << >>, e.el)
    [] e.ev = "fast"   -> Put(mk, "fast_start", FastRows(mk, e.rows), e.el)
    [] e.ev = "unfast" -> Put(mk, "fast_start", << >>, NoEl)
    [] e.ev = "demand" -> Put(mk, "demand", DemandRows(e.rows), e.el)
    [] e.ev = "fcas"   -> Put(mk, "fcas", FcasRows(e.rows), e.el)
    [] e.ev = "maxav"  -> Put(mk, "fcas_max_availability", MaxAvailRows(e.rows), e.el)
    [] e.ev = "jramp"  -> LET m1 == Put(mk, "joint_ramping_raise_reg", JointRampRows(mk, e, "raise_reg", FALSE), e.el)
                              m2 == Put(m1, "joint_ramping_lower_reg", JointRampRows(mk, e, "lower_reg", FALSE), e.el)
                              m3 == Put(m2, "joint_ramping_raise_reg_bdu", JointRampRows(mk, e, "raise_reg", TRUE), e.el)
                          IN Put(m3, "joint_ramping_lower_reg_bdu", JointRampRows(mk, e, "lower_reg", TRUE), e.el)
    [] e.ev = "jcap"   -> Put(mk, "joint_capacity", JointCapRows(mk, e.rows), e.el)
    [] e.ev = "ereg"   -> Put(mk, "energy_and_regulation_capacity", EnergyRegRows(e.rows), e.el)
    [] e.ev = "inter"  -> [mk EXCEPT !.inter = e.rows]
    [] e.ev = "loss"   -> [mk EXCEPT !.loss = e.rows]
    [] e.ev = "gen"    -> Put(mk, "generic", GenericRows(e.rows), e.el)
    [] e.ev = "gunit"  -> [mk EXCEPT !.gu = e.rows]
    [] e.ev = "gregion" -> [mk EXCEPT !.gr = e.rows]
    [] e.ev = "ginter" -> [mk EXCEPT !.gi = e.rows]
    [] e.ev = "elastic" -> [mk EXCEPT !.g[e.key].el = e.el]
    [] OTHER -> mk

(*------------------------ the optimisation problem --------------------------*)
PriceOf(mk, v, j) ==
  LET m == SelectSeq(mk.prc, LAMBDA p : p.u = v.u /\ p.sv = v.sv /\ p.dt = v.dt)
  IN IF m = << >> \/ j > Len(m[1].p) THEN 0
     ELSE IF v.sv = "energy"
          THEN (IF v.dt = "load" THEN -1 ELSE 1) * MulDiv(m[1].p[j], K, InfoOf(mk, v.u, v.dt).lf)
          ELSE m[1].p[j]

BidVars(mk) ==
  Cat(Map(LAMBDA v :
      LET js == SelectSeq([j \in 1..Len(v.b) |-> j], LAMBDA j : v.b[j] >= 10)
      IN Map(LAMBDA j : [k |-> "bid", u |-> v.u, sv |-> v.sv, dt |-> v.dt,
                         r |-> InfoOf(mk, v.u, v.dt).r, sg |-> IF v.sv = "energy" /\ v.dt = "load" THEN -1 ELSE 1,
                         bs |-> IF v.sv = "energy" /\ v.dt = "load" /\ IsBdu(mk, v.u) THEN -1 ELSE 1,
                         lb |-> 0, ub |-> v.b[j], c |-> PriceOf(mk, v, j)], js), mk.vol))

FlowVars(mk) == Map(LAMBDA x : [k |-> "flow", i |-> x.i, l |-> x.l, lb |-> x.mn, ub |-> x.mx, c |-> 0, x |-> x], mk.inter)
WVars(mk) == Cat(Map(LAMBDA z : Map(LAMBDA p : [k |-> "w", i |-> z.i, l |-> z.l, lb |-> 0, ub |-> Q, c |-> 0,
                                               px |-> p.x, py |-> p.y, sh |-> z.sh], z.pts), mk.loss))
Vars(mk) == BidVars(mk) \o FlowVars(mk) \o WVars(mk)

InterOf(mk, i, l) == First(mk.inter, LAMBDA x : x.i = i /\ x.l = l)

\* coefficient of variable v in a template term
Coef(mk, v, t) ==
  CASE t.k = "u" -> IF v.k = "bid" /\ v.u = t.u /\ v.sv = t.sv /\ v.dt = t.dt THEN t.a * v.bs ELSE 0
    [] t.k = "r" ->
        IF v.k = "bid" THEN IF v.r = t.r /\ v.sv = t.sv THEN t.a * v.sg ELSE 0
        ELSE IF t.sv # "energy" THEN 0
        ELSE IF v.k = "flow"
             THEN (IF v.x.to = t.r THEN v.x.tlf ELSE 0) - (IF v.x.fr = t.r THEN v.x.flf ELSE 0)
             ELSE LET x == InterOf(mk, v.i, v.l)
                  IN - (IF x.fr = t.r THEN MulDiv(v.py * 10, v.sh, K) ELSE 0)
                     - (IF x.to = t.r THEN v.py * 10 - MulDiv(v.py * 10, v.sh, K) ELSE 0)
    [] t.k = "s" ->
        IF v.k = "bid"
        THEN SumN(Map(LAMBDA y : y.a * v.bs, SelectSeq(mk.gu, LAMBDA y : y.s = t.s /\ y.u = v.u /\ y.sv = v.sv)))
           + SumN(Map(LAMBDA y : y.a, SelectSeq(mk.gr, LAMBDA y : y.s = t.s /\ y.r = v.r /\ y.sv = v.sv)))
        ELSE IF v.k = "flow"
        THEN SumN(Map(LAMBDA y : y.a * v.x.gf, SelectSeq(mk.gi, LAMBDA y : y.s = t.s /\ y.i = v.i)))
        ELSE 0
    [] OTHER -> 0

RowCoef(mk, v, row) == SumN(Map(LAMBDA t : Coef(mk, v, t), row.t))

\* which terms a row mentions decides whether it exists at all (a row over nothing is no row)
ElCost(el, row) ==
  CASE el.k = "num" -> el.c
    [] el.k = "sets" -> IF Has(el.cs, LAMBDA z : z.s = row.n) THEN First(el.cs, LAMBDA z : z.s = row.n).c ELSE -1
    [] OTHER -> -1

Mentions(mk, v, row) ==
  \E i \in 1..Len(row.t) : LET t == row.t[i] IN
    CASE t.k = "u" -> v.k = "bid" /\ v.u = t.u /\ v.sv = t.sv /\ v.dt = t.dt
      [] t.k = "r" -> IF v.k = "bid" THEN v.r = t.r /\ v.sv = t.sv
                      ELSE IF v.k = "flow" THEN t.sv = "energy" /\ (v.x.to = t.r \/ v.x.fr = t.r) ELSE FALSE
      [] t.k = "s" -> IF v.k = "bid" THEN Has(mk.gu, LAMBDA y : y.s = t.s /\ y.u = v.u /\ y.sv = v.sv)
                                          \/ Has(mk.gr, LAMBDA y : y.s = t.s /\ y.r = v.r /\ y.sv = v.sv)
                      ELSE IF v.k = "flow" THEN Has(mk.gi, LAMBDA y : y.s = t.s /\ y.i = v.i) ELSE FALSE
      [] OTHER -> FALSE

LpRows(mk, vs) ==
  LET named == Cat(Map(LAMBDA n :
        LET gp == mk.g[n] IN
        Map(LAMBDA row : [g |-> n, n |-> row.n, s |-> row.s, b |-> row.b, ec |-> ElCost(gp.el, row),
                          cov |-> row.cov, tp |-> row.t,
                          ex |-> (\E j \in 1..Len(vs) : Mentions(mk, vs[j], row)),
                          t |-> SelectSeq([j \in 1..Len(vs) |-> << j, RowCoef(mk, vs[j], row) >>],
                                          LAMBDA z : z[2] # 0)], gp.rows), GroupNames))
      kept == SelectSeq(named, LAMBDA r : r.ex \/ r.ec >= 0)
      wrow(z, kind) ==
        LET ws == SelectSeq([j \in 1..Len(vs) |-> j], LAMBDA j : vs[j].k = "w" /\ vs[j].i = z.i /\ vs[j].l = z.l)
            fj == CHOOSE j \in 1..Len(vs) : vs[j].k = "flow" /\ vs[j].i = z.i /\ vs[j].l = z.l
            base == [g |-> "loss_model", n |-> z.i \o "/" \o z.l \o kind, s |-> "=", ec |-> -1, cov |-> << >>,
                     tp |-> << >>, ex |-> TRUE]
        IN IF kind = "sum"
           THEN [b |-> Q, t |-> Map(LAMBDA j : << j, K >>, ws)] @@ base
           ELSE [b |-> 0, t |-> Map(LAMBDA j : << j, vs[j].px * 10 >>, ws) \o << << fj, -K >> >>] @@ base
  IN kept \o Map(LAMBDA z : wrow(z, "sum"), mk.loss) \o Map(LAMBDA z : wrow(z, "flow"), mk.loss)

Lp(mk) ==
  LET vs == Vars(mk) IN
  [v |-> vs, r |-> LpRows(mk, vs),
   \* exclusive choices: consecutive break points of each loss model; one link per interconnector
   sg |-> Map(LAMBDA z : Len(z.pts) - 1, mk.loss),
   wl |-> Map(LAMBDA z : SelectSeq([j \in 1..Len(vs) |-> j], LAMBDA j : vs[j].k = "w" /\ vs[j].i = z.i /\ vs[j].l = z.l), mk.loss),
   fl |-> SelectSeq([j \in 1..Len(vs) |-> j], LAMBDA j : vs[j].k = "flow")]

(*---------------------------- exclusive choices ----------------------------*)
\* a choice fixes one segment per loss model and, among the links of one
\* interconnector, the single link allowed to carry flow.
LinkIdx(mk) == {j \in 1..Len(mk.inter) : mk.inter[j].i # mk.inter[j].l}
Picks(mk) ==
  {ch \in [sg : {f \in [1..Len(mk.loss) -> 1..(FoldLeft(LAMBDA a, z : Max2(a, Len(z.pts) - 1), 1, mk.loss))] :
                   \A z \in 1..Len(mk.loss) : f[z] <= Len(mk.loss[z].pts) - 1},
           on : {f \in [1..Len(mk.inter) -> BOOLEAN] :
                   /\ \A j \in 1..Len(mk.inter) : j \notin LinkIdx(mk) => f[j]
                   /\ \A j, k \in LinkIdx(mk) : (j # k /\ mk.inter[j].i = mk.inter[k].i) => ~(f[j] /\ f[k])}] : TRUE}

\* bounds of variable j under a choice
Allowed(mk, lp, ch, j) ==
  LET v == lp.v[j] IN
  CASE v.k = "w" -> \E z \in 1..Len(mk.loss) : \E p \in {ch.sg[z], ch.sg[z] + 1} : lp.wl[z][p] = j
    [] v.k = "flow" -> \E f \in 1..Len(lp.fl) : lp.fl[f] = j /\ ch.on[f]
    [] OTHER -> TRUE

(*------------------------------- cost bounds -------------------------------*)
\* y: one multiplier per row (scale P).  Signs and penalty caps make the bound sound.
SoundMult(lp, y) ==
  /\ Len(y) = Len(lp.r)
  /\ \A i \in 1..Len(y) : Abs(y[i]) <= 1000000000
  /\ \A i \in 1..Len(lp.r) :
       /\ lp.r[i].s = "<=" => y[i] <= 0
       /\ lp.r[i].s = ">=" => y[i] >= 0
       /\ lp.r[i].ec >= 0 => Abs(y[i]) <= lp.r[i].ec

ReducedCosts(lp, y, zeroCost) ==
  LET flat == Cat([i \in 1..Len(lp.r) |-> Map(LAMBDA t : << t[1], t[2], i >>, lp.r[i].t)])
      flatnz == SelectSeq(flat, LAMBDA z : y[z[3]] # 0)
      One(j) == LET mine == SelectSeq(flatnz, LAMBDA z : z[1] = j)
                    tot  == WSum(Map(LAMBDA z : WMul(y[z[3]], z[2]), mine))
                IN WSub(WMul(IF zeroCost THEN 0 ELSE lp.v[j].c, K), tot)     \* scale P*K
  IN [j \in 1..Len(lp.v) |-> One(j)]

\* floor and ceiling of a wide number / K, natively
FloorK(w) == N(WDiv(WDiv(w, 1000), 1000))
CeilK(w) == -FloorK(WNeg(w))

\* Lower bound (scale P*Q) on the cost of every admissible dispatch under choice ch
BaseTerm(lp, y) == WSum([i \in 1..Len(lp.r) |-> WMul(y[i], lp.r[i].b)])
Huge == WMul(1000000000, K)                     \* reduced costs above 10000 $/MWh do not fit
InRange(v, rc) == (v.lb = 0 /\ (v.ub = Q \/ rc[1] >= 0)) \/ WLe(WAbs(rc), Huge)
VarTerm(v, rc) ==
  IF v.lb = 0 /\ rc[1] >= 0 THEN WZero
  ELSE IF v.lb = 0 /\ v.ub = Q THEN WDiv(rc, 10)                  \* an interpolation weight: 0..1
  ELSE LET f == FloorK(rc)  c == CeilK(rc)
       IN WMin(WMin(WMul(f, v.lb), WMul(f, v.ub)), WMin(WMul(c, v.lb), WMul(c, v.ub)))
BoundFor(mk, lp, ch, base, terms) ==
  WAdd(base, WSum([j \in 1..Len(lp.v) |-> IF Allowed(mk, lp, ch, j) THEN terms[j] ELSE WZero]))
\* one record per multiplier vector; bad = variables whose reduced cost does not fit: the vector
\* is of no use for a choice that allows one of them
Priced(lp, y, zeroCost) ==
  LET rc == ReducedCosts(lp, y, zeroCost)
      bad == {j \in 1..Len(lp.v) : ~ InRange(lp.v[j], rc[j])}
  IN [bad |-> bad, b |-> BaseTerm(lp, y),
      t |-> [j \in 1..Len(lp.v) |-> IF j \in bad THEN WZero ELSE VarTerm(lp.v[j], rc[j])]]
\* every dispatch under choice ch costs at least goal
Reaches(mk, lp, ch, p, goal) ==
  /\ \A j \in p.bad : ~ Allowed(mk, lp, ch, j)
  /\ WLe(goal, BoundFor(mk, lp, ch, p.b, p.t))
NoChoice(mk) == mk.loss = << >> /\ LinkIdx(mk) = {}

(*--------------------------- judging a dispatch ----------------------------*)
DispOf(out, u, sv, dt) ==
  SumN(Map(LAMBDA d : d.q, SelectSeq(out.disp, LAMBDA d : d.u = u /\ d.sv = sv /\ d.dt = dt)))
FlowOf(out, i, l) == LET m == SelectSeq(out.flows, LAMBDA f : f.i = i /\ f.l = l) IN IF m = << >> THEN 0 ELSE m[1].q
LossOf(out, i, l) == LET m == SelectSeq(out.flows, LAMBDA f : f.i = i /\ f.l = l) IN IF m = << >> THEN 0 ELSE m[1].ls

BduSign(mk, d) == IF d.sv = "energy" /\ d.dt = "load" /\ IsBdu(mk, d.u) THEN -1 ELSE 1

TermAct(mk, out, t) ==   \* wide, scale K*Q
  CASE t.k = "u" ->
        WMul(t.a * (IF t.sv = "energy" /\ t.dt = "load" /\ IsBdu(mk, t.u) THEN -1 ELSE 1), DispOf(out, t.u, t.sv, t.dt))
    [] t.k = "r" ->
        WAdd(WSum(Map(LAMBDA d : WMul(t.a * (IF d.sv = "energy" /\ d.dt = "load" THEN -1 ELSE 1), d.q),
                   SelectSeq(out.disp, LAMBDA d : d.sv = t.sv /\ KnownUnit(mk, d.u, d.dt) /\ InfoOf(mk, d.u, d.dt).r = t.r))),
             IF t.sv # "energy" THEN WZero
             ELSE WSum(Cat(Map(LAMBDA x :
                    LET f == FlowOf(out, x.i, x.l)  ls == LossOf(out, x.i, x.l)
                        z == SelectSeq(mk.loss, LAMBDA z : z.i = x.i /\ z.l = x.l)
                        sh == IF z = << >> THEN 0 ELSE z[1].sh
                    IN (IF x.to = t.r THEN << WMul(x.tlf, f), IF z = << >> THEN WZero ELSE WMul(sh - K, ls) >> ELSE << >>)
                    \o (IF x.fr = t.r THEN << WMul(-x.flf, f), WMul(-sh, ls) >> ELSE << >>), mk.inter))))
    [] t.k = "s" ->
        WAdd(WSum(Map(LAMBDA y : WSum(Map(LAMBDA d : WMul(y.a * BduSign(mk, d), d.q),
                       SelectSeq(out.disp, LAMBDA d : d.u = y.u /\ d.sv = y.sv))), SelectSeq(mk.gu, LAMBDA y : y.s = t.s))),
        WAdd(WSum(Map(LAMBDA y : WSum(Map(LAMBDA d : WMul(y.a, d.q),
                       SelectSeq(out.disp, LAMBDA d : d.sv = y.sv /\ InfoOf(mk, d.u, d.dt).r = y.r))), SelectSeq(mk.gr, LAMBDA y : y.s = t.s))),
             WSum(Map(LAMBDA y : WSum(Map(LAMBDA x : WMul(y.a * x.gf, FlowOf(out, x.i, x.l)),
                       SelectSeq(mk.inter, LAMBDA x : x.i = y.i))), SelectSeq(mk.gi, LAMBDA y : y.s = t.s)))))
    [] OTHER -> WZero

RowAct(mk, out, r) == WSum(Map(LAMBDA t : TermAct(mk, out, t), r.tp))
\* amount by which a row is missed, wide, scale K*Q, never negative
Miss(s, b, act) ==
  LET over == WSub(act, WMul(b, K)) IN
  CASE s = "<=" -> WMax(over, WZero)
    [] s = ">=" -> WMax(WNeg(over), WZero)
    [] OTHER -> WAbs(over)

FTol == 200                    \* 0.002 MW
MissTol == WMul(FTol, K)

\* cheapest way to make up a total out of the bands of one bid
BandCost(vs, u, sv, dt, q) ==
  LET mine == SelectSeq(vs, LAMBDA v : v.k = "bid" /\ v.u = u /\ v.sv = sv /\ v.dt = dt)
      srt  == SortSeq(mine, LAMBDA a, b : a.c < b.c)
      step(acc, v) == LET take == Max2(0, Min2(v.ub, acc.left))
                      IN [left |-> acc.left - take, cost |-> WAdd(acc.cost, WMul(v.c, take))]
  IN FoldLeft(step, [left |-> q, cost |-> WZero], srt).cost

EnergyCost(lp, out) == WSum(Map(LAMBDA d : BandCost(lp.v, d.u, d.sv, d.dt, d.q), out.disp))
Penalty(mk, lp, out) ==  \* scale P*Q
  WSum(Map(LAMBDA r : IF r.ec < 0 THEN WZero
                      ELSE WMul(r.ec, N(WDiv(WDiv(Miss(r.s, r.b, RowAct(mk, out, r)), 1000), 1000))),
           SelectSeq(lp.r, LAMBDA r : r.g # "loss_model" /\ r.g # "tie_break")))
CostOf(mk, lp, out) == WAdd(EnergyCost(lp, out), Penalty(mk, lp, out))

\* objective reported in dollars + 1e-5 dollars -> scale P*Q = 1e10
ObjW(o) == WAdd(WScale(WScale(WScale(WScale(W(o.d), 10000), 1000), 1000), 1), WMul(o.f, Q))

\* numerical allowance on costs: 0.1 $ + 1e-6 of the cost mass + 5e-5 $/MWh on every MW
CostTol(lp) ==
  WAdd(WMul(10 * P, Q \div 100),
       WSum(Map(LAMBDA v : WAdd(WDiv(WDiv(WMul(Abs(v.c), Max2(Abs(v.lb), Abs(v.ub))), 1000), 1000),
                                WMul(5, Max2(Abs(v.lb), Abs(v.ub)))), lp.v)))

\* piecewise-linear loss at a flow
LossAt(pts, f) ==
  LET ks == {k \in 1..(Len(pts) - 1) : pts[k].x - FTol <= f /\ f <= pts[k+1].x + FTol}
      k  == CHOOSE k \in ks : TRUE
  IN IF ks = {} THEN 1000000000
     ELSE pts[k].y + MulDiv(pts[k+1].y - pts[k].y, f - pts[k].x, pts[k+1].x - pts[k].x)

=============================================================================
