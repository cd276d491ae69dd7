---------------------------- MODULE MarketTrace ----------------------------
(* Replays recorded histories of calls on a real market object through the
   transitions of Market and judges what the object reported.

   One behaviour per history: Init picks the history, each step consumes one
   recorded event, applies the specification's transition for it and, at a
   dispatch event, evaluates every clause below on the recorded outcome.
   Verdicts are total: the accumulated list of failed clauses, each with the
   place it failed, is written out when the history is exhausted.

   Certificates (event field `cert`) come from an untrusted solver; nothing is
   believed because of them: a bound only counts when BoundFor reaches it, an
   alternative dispatch only counts when it passes the same clauses. *)
EXTENDS Market, Json, IOUtils

Mode == IOEnv.VP_MODE                                   \* "emit" or "judge"
Data == ndJsonDeserialize(IOEnv.VP_TRACE)
OutDir == IOEnv.VP_OUT

VARIABLES sc, pc, mk, rep

vars == << sc, pc, mk, rep >>

Fail(cl, wh, got, want) == [cl |-> cl, wh |-> wh, got |-> got, want |-> want]
Show(w) == N(WDiv(WDiv(w, 1000), 1000))      \* K*Q -> Q, only for reporting

(*-------------------------- admissibility clauses --------------------------*)
BandTotal(lp, u, sv, dt) == SumN(Map(LAMBDA v : v.ub, SelectSeq(lp.v, LAMBDA v : v.k = "bid" /\ v.u = u /\ v.sv = sv /\ v.dt = dt)))

BidFails(lp, out) ==
  Cat(Map(LAMBDA d : LET m == BandTotal(lp, d.u, d.sv, d.dt) IN
        IF d.q < -FTol \/ d.q > m + FTol THEN << Fail("bid-volume", d.u \o "/" \o d.sv \o "/" \o d.dt, d.q, m) >> ELSE << >>, out.disp))
  \o Cat(Map(LAMBDA v : IF v.k = "bid" /\ ~ Has(out.disp, LAMBDA d : d.u = v.u /\ d.sv = v.sv /\ d.dt = v.dt)
                        THEN << Fail("unit-not-reported", v.u \o "/" \o v.sv \o "/" \o v.dt, 0, v.ub) >> ELSE << >>, lp.v))

RowFails(m, lp, out) ==
  Cat(Map(LAMBDA r :
        LET miss == Miss(r.s, r.b, RowAct(m, out, r)) IN
        IF r.ec < 0 /\ ~WLe(miss, MissTol)
        THEN << Fail("row:" \o r.g, r.n, Show(RowAct(m, out, r)), r.b) >> ELSE << >>,
      SelectSeq(lp.r, LAMBDA r : r.g # "loss_model" /\ r.g # "tie_break")))

FlowFails(m, out) ==
  Cat(Map(LAMBDA x :
      LET f == FlowOf(out, x.i, x.l)
          ls == LossOf(out, x.i, x.l)
          z == SelectSeq(m.loss, LAMBDA z : z.i = x.i /\ z.l = x.l)
          nm == x.i \o "/" \o x.l
      IN (IF ~ Has(out.flows, LAMBDA y : y.i = x.i /\ y.l = x.l) THEN << Fail("flow-not-reported", nm, 0, 0) >> ELSE << >>)
      \o (IF f > x.mx + FTol THEN << Fail("flow-limit", nm, f, x.mx) >> ELSE << >>)
      \o (IF f < x.mn - FTol THEN << Fail("flow-limit", nm, f, x.mn) >> ELSE << >>)
      \o (IF z # << >> /\ Abs(ls - LossAt(z[1].pts, f)) > 2 * FTol THEN << Fail("loss", nm, ls, LossAt(z[1].pts, f)) >> ELSE << >>)
      \o (IF x.i # x.l /\ Has(m.inter, LAMBDA y : y.i = x.i /\ y.l # x.l /\ y.i # y.l /\ Abs(FlowOf(out, y.i, y.l)) > FTol) /\ Abs(f) > FTol
          THEN << Fail("two-links", nm, f, 0) >> ELSE << >>), m.inter))

Admissible(m, lp, out) == BidFails(lp, out) \o RowFails(m, lp, out) \o FlowFails(m, out)

(*------------------------------ cost clauses -------------------------------*)
Dollars(w) == N(WDiv(WDiv(WDiv(w, 10000), 10000), 100))          \* P*Q -> $, for reporting
ObjFails(m, lp, out) ==
  IF WLe(WAbs(WSub(ObjW(out.obj), CostOf(m, lp, out))), CostTol(lp)) THEN << >>
  ELSE << Fail("objective", "objective_value", out.obj.d, Dollars(CostOf(m, lp, out))) >>

UsableMult(lp, ys, zero) ==
  Map(LAMBDA y : Priced(lp, y, zero), SelectSeq(ys, LAMBDA y : SoundMult(lp, y) /\ (zero => \A i \in 1..Len(lp.r) : lp.r[i].ec >= 0 => y[i] = 0)))

\* every admissible dispatch, whatever segment or link it uses, costs at least `goal`
ProvenFloor(m, lp, ys, goal, zero) ==
  LET pre == UsableMult(lp, ys, zero)
  IN \A ch \in Picks(m) : Has(pre, LAMBDA p : Reaches(m, lp, ch, p, goal))

\* "ok", "cheaper" (an admissible dispatch costs less) or "unknown"
OptVerdict(m, lp, e) ==
  LET cost == CostOf(m, lp, e.out)
      tol  == CostTol(lp)
      beaten == e.cert.alt # << >> /\ LET alt == e.cert.alt[1] IN
                  /\ WLt(WAdd(CostOf(m, lp, alt), WScale(tol, 2)), cost)
                  /\ Admissible(m, lp, alt) = << >>
  IN IF beaten THEN "cheaper"
     ELSE IF ProvenFloor(m, lp, e.cert.ys, WSub(cost, tol), FALSE) THEN "ok" ELSE "unknown"

(*------------------------- violation degree clauses -------------------------*)
ViolFails(m, lp, out) ==
  Cat(Map(LAMBDA v :
        LET rs == SelectSeq(lp.r, LAMBDA r : r.g = v.g /\ r.ec >= 0)
            tot == Show(WSum(Map(LAMBDA r : Miss(r.s, r.b, RowAct(m, out, r)), rs)))
        IN IF Abs(v.q - tot) > FTol * (Len(rs) + 1) THEN << Fail("violation-degree", v.g, v.q, tot) >> ELSE << >>, out.viol))

(*------------------------------ price clauses ------------------------------*)
PTol == 200                         \* 0.002 $/MWh
ReportedEnergy(out, r) == First(out.ep, LAMBDA p : p.r = r).p
CovSum(lp, y, r, sv) == SumN([i \in 1..Len(lp.r) |-> IF lp.r[i].g = "fcas" THEN Len(SelectSeq(lp.r[i].cov, LAMBDA c : c = << r, sv >>)) * y[i] ELSE 0])

\* the multipliers y agree with the reported prices
PricesMatch(lp, y, out, f) ==
  /\ \A i \in 1..Len(lp.r) : lp.r[i].g = "demand" => Abs(y[i] - ReportedEnergy(out, lp.r[i].n)) <= PTol * f
  /\ \A i \in 1..Len(out.fp) : Abs(CovSum(lp, y, out.fp[i].r, out.fp[i].sv) - out.fp[i].p) <= PTol * 4 * f

\* the choice is one the reported flows are in
ChoiceFits(m, ch, out) ==
  /\ \A z \in 1..Len(m.loss) : LET f == FlowOf(out, m.loss[z].i, m.loss[z].l) IN
        /\ m.loss[z].pts[ch.sg[z]].x - FTol <= f
        /\ f <= m.loss[z].pts[ch.sg[z] + 1].x + FTol
  /\ \A j \in 1..Len(m.inter) : Abs(FlowOf(out, m.inter[j].i, m.inter[j].l)) > FTol => ch.on[j]

\* requirements moved by the amounts in sh: an energy shift moves the demand of a region,
\* a service shift moves every requirement set covering that region and service
Shift(sh, r, sv) == SumN(Map(LAMBDA z : z.q, SelectSeq(sh, LAMBDA z : z.r = r /\ z.sv = sv)))
Moved(lp, sh) ==
  [lp EXCEPT !.r = Map(LAMBDA r :
      IF r.g \in {"demand", "fcas"} THEN [r EXCEPT !.b = @ + SumN(Map(LAMBDA c : Shift(sh, c[1], c[2]), r.cov))] ELSE r, lp.r)]
PriceOfShift(out, z) ==
  IF z.sv = "energy" THEN ReportedEnergy(out, z.r)
  ELSE First(out.fp, LAMBDA p : p.r = z.r /\ p.sv = z.sv).p

\* w shows that the moved market can be served for less than the prices say it must cost
Contradicts(m, lp, w, cost, out) ==
  LET lq == Moved(lp, w.sh)
      said == WAdd(cost, WSum(Map(LAMBDA z : WMul(PriceOfShift(out, z), z.q), w.sh)))
  IN /\ WLt(WAdd(CostOf(m, lq, w.alt), WScale(CostTol(lp), 3)), said)
     /\ Admissible(m, lq, w.alt) = << >>
     /\ ChoiceFits(m, w.ch, w.alt)

\* prices are marginal: with them as multipliers no admissible dispatch (in the segments in use)
\* is cheaper than the given cost.  c = [y, ch] and the witnesses gw are certificates.
\* "ok" | "gap" (refuted in every choice of segments that fits the flows) | "unknown"
PriceVerdict(m, lp, cs, gw, cost, out) ==
  LET agree == cs # << >> /\ LET c == cs[1] IN
         /\ SoundMult(lp, c.y)
         /\ c.ch \in Picks(m)
         /\ ChoiceFits(m, c.ch, out)
         /\ PricesMatch(lp, c.y, out, 1)
         /\ Reaches(m, lp, c.ch, Priced(lp, c.y, FALSE), WSub(cost, CostTol(lp)))
  IN IF agree THEN "ok"
     ELSE IF \A ch \in {c \in Picks(m) : ChoiceFits(m, c, out)} :
               Has(gw, LAMBDA w : w.ch = ch /\ Contradicts(m, lp, w, cost, out))
     THEN "gap" ELSE "unknown"

\* the over-constrained re-run: rows of the generic and FCAS groups that were violated are
\* relaxed by their violation plus a margin of 0.01 MW and the market is priced again
Relaxed(m, lp, out) ==
  [lp EXCEPT !.r = Map(LAMBDA r :
      LET d == Show(Miss(r.s, r.b, RowAct(m, out, r))) IN
      IF r.g \notin {"generic", "fcas"} \/ r.ec < 0 \/ d <= 0 THEN r
      ELSE LET act == Show(RowAct(m, out, r)) up == act > r.b
           IN [r EXCEPT !.b = IF up THEN @ + d + 1000 ELSE @ - d - 1000], lp.r)]

ShapeFails(m, lp, out) ==
  Cat(Map(LAMBDA p : IF p.p = 2000000000 THEN << Fail("price-not-a-number", p.r, 0, 0) >> ELSE << >>, out.ep))
  \o Cat(Map(LAMBDA p : IF p.p = 2000000000 THEN << Fail("price-not-a-number", p.r \o "/" \o p.sv, 0, 0) >> ELSE << >>, out.fp)) \o
  Cat(Map(LAMBDA r : IF Has(out.ep, LAMBDA p : p.r = r.n) THEN << >> ELSE << Fail("price-missing", r.n, 0, 0) >>,
          SelectSeq(lp.r, LAMBDA r : r.g = "demand")))
  \o Cat(Map(LAMBDA r : Cat(Map(LAMBDA c : IF Has(out.fp, LAMBDA p : p.r = c[1] /\ p.sv = c[2]) THEN << >>
                                      ELSE << Fail("fcas-price-missing", c[1] \o "/" \o c[2], 0, 0) >>, r.cov)),
          SelectSeq(lp.r, LAMBDA r : r.g = "fcas")))

NormalVerdict(m, lp, e) == PriceVerdict(m, lp, e.cert.pc, e.cert.gw, CostOf(m, lp, e.out), e.out)
RerunVerdict(m, lp, e) ==
  IF e.cert.po = << >> \/ e.cert.poalt = << >> THEN "unknown"
  ELSE LET lq == Relaxed(m, lp, e.out)
           alt == e.cert.poalt[1]
       IN IF Admissible(m, lq, alt) # << >> \/ ~ ProvenFloor(m, lq, e.cert.yso, WSub(CostOf(m, lq, alt), CostTol(lq)), FALSE)
          THEN "unknown"
          ELSE PriceVerdict(m, lq, e.cert.po, e.cert.gwo, CostOf(m, lq, alt), e.out)

ViolatedGF(m, lp, out) ==
  LET ds == Map(LAMBDA r : Show(Miss(r.s, r.b, RowAct(m, out, r))), SelectSeq(lp.r, LAMBDA r : r.g \in {"generic", "fcas"} /\ r.ec >= 0))
  IN FoldLeft(Max2, 0, ds)

\* first-pass prices are those of the preceding ordinary dispatch of the same market
\* (the ceiling for a service applies per requirement set; where sets overlap the reported
\* price is a sum and only says "maybe"; a price that is exactly the threshold reaches it: eq, feq,
\* decided on the unrounded numbers)
Single(lp) == LET fr == SelectSeq(lp.r, LAMBDA r : r.g = "fcas") IN
  \A i, j \in 1..Len(fr) : i # j => ~ \E c \in Range(fr[i].cov) : c \in Range(fr[j].cov)
Trigger(lp, o, prev) ==
  LET hi == o.eq \/ (Single(lp) /\ o.feq) \/ Has(prev.ep, LAMBDA p : p.p >= o.ceil + 10) \/ (Single(lp) /\ Has(prev.fp, LAMBDA p : p.p >= o.fceil + 10))
      lo == Has(prev.ep, LAMBDA p : p.p <= o.floor - 10)
      mb == ~ Single(lp) \/ Has(prev.ep, LAMBDA p : p.p >= o.ceil - 10 \/ p.p <= o.floor + 10) \/ Has(prev.fp, LAMBDA p : p.p >= o.fceil - 10)
  IN IF hi \/ lo THEN "yes" ELSE IF mb THEN "maybe" ELSE "no"

SamePrices(a, b) ==
  /\ Len(a.ep) = Len(b.ep) /\ Len(a.fp) = Len(b.fp)
  /\ \A i \in 1..Len(a.ep) : Has(b.ep, LAMBDA p : p.r = a.ep[i].r /\ Abs(p.p - a.ep[i].p) <= PTol)
  /\ \A i \in 1..Len(a.fp) : Has(b.fp, LAMBDA p : p.r = a.fp[i].r /\ p.sv = a.fp[i].sv /\ Abs(p.p - a.fp[i].p) <= PTol)

PV(v, cl, wh) == CASE v = "ok" -> << >> [] v = "gap" -> << Fail(cl, wh, 0, 0) >> [] OTHER -> << Fail("?" \o cl, wh, 0, 0) >>

\* Not decided here: prices beyond the numeric range, and negative prices (reported or true) with the flow of
\* a lossy interconnector exactly at a break point (losses are then profitable, the problem
\* is not convex there and no multipliers need exist).
NaN == 2000000000
InsideSegments(m, out) ==
  \A z \in 1..Len(m.loss) : \A i \in 1..Len(m.loss[z].pts) :
     Abs(FlowOf(out, m.loss[z].i, m.loss[z].l) - m.loss[z].pts[i].x) > 2 * FTol
NegativeValue(lp, e) ==
  Has(e.cert.ys \o e.cert.yso, LAMBDA y : \E i \in 1..Len(lp.r) : lp.r[i].g = "demand" /\ y[i] < -PTol)
PricesDecidable(m, lp, e) ==
  LET out == e.out IN
  /\ \A i \in 1..Len(out.ep) : Abs(out.ep[i].p) <= 1000000000
  /\ \A i \in 1..Len(out.fp) : Abs(out.fp[i].p) <= 1000000000
  /\ (m.loss = << >> \/ ((\A i \in 1..Len(out.ep) : out.ep[i].p >= -PTol) /\ ~ NegativeValue(lp, e)) \/ InsideSegments(m, out))

PriceFails(m, lp, e, prev) ==
  LET sh == ShapeFails(m, lp, e.out) IN
  IF sh # << >> THEN sh
  ELSE IF ~ PricesDecidable(m, lp, e) THEN << Fail("?price-range", "", 0, 0) >>
  ELSE IF ~ e.ocd.on THEN PV(NormalVerdict(m, lp, e), "prices-not-marginal", "dispatch")
  ELSE LET vio == ViolatedGF(m, lp, e.out)
           tr  == Trigger(lp, e.ocd, prev)
       IN IF tr = "no" \/ vio <= 5
          THEN (IF SamePrices(e.out, prev) THEN << >> ELSE << Fail("rerun-without-cause", tr, vio, 0) >>)
          ELSE IF tr = "yes" /\ vio >= 20 THEN PV(RerunVerdict(m, lp, e), "rerun-prices-not-marginal", tr)
          ELSE IF SamePrices(e.out, prev) \/ RerunVerdict(m, lp, e) # "gap" THEN << >>
          ELSE << Fail("rerun-prices-not-marginal", tr, vio, 0) >>

(*--------------------------- derived report clauses -------------------------*)
SumQ(s) == SumN(Map(LAMBDA d : d.q, s))
SummaryFails(m, out) ==
  Cat(Map(LAMBDA z :
      LET mine == SelectSeq(out.disp, LAMBDA d : d.sv = "energy" /\ InfoOf(m, d.u, d.dt).r = z.r)
          gen  == SumQ(SelectSeq(mine, LAMBDA d : d.dt = "generator")) - SumQ(SelectSeq(mine, LAMBDA d : d.dt = "load"))
          infl == SumN(Map(LAMBDA x : (IF x.to = z.r THEN FlowOf(out, x.i, x.l) ELSE 0) - (IF x.fr = z.r THEN FlowOf(out, x.i, x.l) ELSE 0), m.inter))
          tl   == SumN(Map(LAMBDA x : (IF x.to = z.r THEN MulDiv(FlowOf(out, x.i, x.l), K - x.tlf, K) ELSE 0)
                                    - (IF x.fr = z.r THEN MulDiv(FlowOf(out, x.i, x.l), K - x.flf, K) ELSE 0), m.inter))
          il   == SumN(Map(LAMBDA y : LET x == InterOf(m, y.i, y.l) IN
                       (IF x.fr = z.r THEN MulDiv(LossOf(out, x.i, x.l), y.sh, K) ELSE 0)
                     + (IF x.to = z.r THEN LossOf(out, x.i, x.l) - MulDiv(LossOf(out, x.i, x.l), y.sh, K) ELSE 0), m.loss))
          chk(nm, got, want) == IF Abs(got - want) > FTol THEN << Fail("summary:" \o nm, z.r, got, want) >> ELSE << >>
          dem == SelectSeq(m.g["demand"].rows, LAMBDA r : r.n = z.r)
      IN chk("dispatch", z.disp, gen)
         \o (IF m.inter = << >> THEN << >> ELSE chk("inflow", z.inflow, infl) \o chk("transmission_losses", z.tl, tl))
         \o (IF m.loss = << >> THEN << >> ELSE chk("interconnector_losses", z.il, il))
         \o (IF dem = << >> \/ m.g["demand"].el.k # "none" THEN << >>
             ELSE chk("balance", z.disp + (IF m.inter = << >> THEN 0 ELSE z.inflow - z.tl) - (IF m.loss = << >> THEN 0 ELSE z.il), dem[1].b)),
      out.summary))
  \o (IF out.hassum THEN
        Cat(Map(LAMBDA r : IF Has(out.summary, LAMBDA z : z.r = r.n) THEN << >> ELSE << Fail("summary:region-missing", r.n, 0, 0) >>,
            SelectSeq(m.g["demand"].rows, LAMBDA r : Has(out.disp, LAMBDA d : d.sv = "energy" /\ InfoOf(m, d.u, d.dt).r = r.n)
                                                    \/ Has(m.inter, LAMBDA x : x.to = r.n \/ x.fr = r.n))))
      ELSE << >>)

\* how far a reserve enablement could go, everything else held where it is
AvailGroups == {"fcas_max_availability", "joint_ramping_raise_reg", "joint_ramping_lower_reg", "joint_ramping_raise_reg_bdu",
                "joint_ramping_lower_reg_bdu", "joint_capacity", "energy_and_regulation_capacity"}
AvailFails(m, lp, out) ==
  Cat(Map(LAMBDA a :
      LET rows == SelectSeq(lp.r, LAMBDA r : r.g \in AvailGroups /\ Has(r.tp, LAMBDA t : t.k = "u" /\ t.u = a.u /\ t.sv = a.sv /\ t.dt = a.dt))
          co(r) == SumN(Map(LAMBDA t : t.a, SelectSeq(r.tp, LAMBDA t : t.k = "u" /\ t.u = a.u /\ t.sv = a.sv /\ t.dt = a.dt)))
          lim == SelectSeq(rows, LAMBDA r : (r.s = "<=" /\ co(r) > 10) \/ (r.s = ">=" /\ co(r) < -10))
          room(r) == LET act == Show(RowAct(m, out, r)) IN Max2(0, MulDiv(IF r.s = "<=" THEN r.b - act ELSE act - r.b, K, Abs(co(r))))
          want == DispOf(out, a.u, a.sv, a.dt) + FoldLeft(Min2, 1000000000, Map(room, lim))
      IN IF lim = << >> THEN << >>
         ELSE IF Abs(a.q - want) > 5 * FTol THEN << Fail("availability", a.u \o "/" \o a.sv, a.q, want) >> ELSE << >>, out.avail))

(*--------------------------------- verdict ---------------------------------*)
Judge(m, e, prev) ==
  LET lp == Lp(m) IN
  CASE e.out.st = "ok" ->
        LET adm == Admissible(m, lp, e.out)
            ov  == OptVerdict(m, lp, e)
            ob  == ObjFails(m, lp, e.out)
        IN adm \o ob
           \o (IF ov = "cheaper" /\ adm = << >> THEN << Fail("not-least-cost", "dispatch", Dollars(CostOf(m, lp, e.out)), Dollars(CostOf(m, lp, e.cert.alt[1]))) >>
               ELSE IF ov = "unknown" THEN << Fail("?optimal", "", 0, 0) >> ELSE << >>)
           \o ViolFails(m, lp, e.out)
           \o (IF e.chkprice /\ adm = << >> /\ ov = "ok" THEN PriceFails(m, lp, e, prev) ELSE << >>)
           \o SummaryFails(m, e.out) \o AvailFails(m, lp, e.out)
    [] e.out.st = "infeasible" ->
        IF e.cert.alt # << >> /\ Admissible(m, lp, e.cert.alt[1]) = << >>
        THEN << Fail("refused-feasible-market", e.out.msg, 0, 0) >>
        ELSE IF ProvenFloor(m, lp, e.cert.ys, WMul(P, FTol), TRUE) THEN << >> ELSE << Fail("?infeasible", "", 0, 0) >>
    [] OTHER -> << Fail("error", e.out.msg, 0, 0) >>

(*------------------------------ state machine ------------------------------*)
NoPrev == [ep |-> << >>, fp |-> << >>]
\* rates given an initial output: seed outputs (only units listed on both sides), or the last
\* energy dispatch, zero for a unit that had none
WithInit(e, last) ==
  CASE e.ev = "seed" ->
         [e EXCEPT !.rows = Map(LAMBDA x : [u |-> x.u, dt |-> x.dt, up |-> x.up, dn |-> x.dn, init |-> First(e.hist, LAMBDA h : h.u = x.u).init],
                                SelectSeq(e.rows, LAMBDA x : Has(e.hist, LAMBDA h : h.u = x.u)))]
    [] e.ev = "chain" ->
         [e EXCEPT !.rows = Map(LAMBDA x : [u |-> x.u, dt |-> x.dt, up |-> x.up, dn |-> x.dn,
                                            init |-> SumN(Map(LAMBDA d : d.q, SelectSeq(last, LAMBDA d : d.u = x.u /\ d.sv = "energy")))], e.rows)]
    [] OTHER -> e
Init == /\ sc \in 1..Len(Data)
        /\ pc = 1
        /\ mk = NewMarket([iv |-> 5, info |-> << >>])
        /\ rep = [fails |-> << >>, prev |-> NoPrev, n |-> 0, lps |-> << >>, last |-> << >>]

H == Data[sc].ev
Step ==
  /\ pc <= Len(H)
  /\ LET e == H[pc] IN
     IF e.ev = "dispatch"
     THEN /\ mk' = mk
          /\ IF Mode = "emit"
             THEN rep' = [rep EXCEPT !.lps = Append(@, Lp(mk)), !.n = @ + 1, !.last = IF e.out.st = "ok" THEN e.out.disp ELSE @]
             ELSE rep' = [fails |-> rep.fails \o Map(LAMBDA f : [f EXCEPT !.wh = ToString(pc) \o ":" \o @], Judge(mk, e, rep.prev)),
                          prev |-> IF e.out.st = "ok" /\ ~e.ocd.on THEN [ep |-> e.out.ep, fp |-> e.out.fp] ELSE rep.prev,
                          n |-> rep.n + 1, lps |-> << >>, last |-> IF e.out.st = "ok" THEN e.out.disp ELSE rep.last]
     ELSE /\ mk' = Apply(mk, WithInit(e, rep.last))
          \* tables are the caller's: a call leaves them as they were
          /\ rep' = [rep EXCEPT !.fails = @ \o Map(LAMBDA t : Fail("table-altered", ToString(pc) \o ":" \o e.ev \o " " \o t, 0, 0),
                                                  IF "alt" \in DOMAIN e THEN e.alt ELSE << >>)]
  /\ pc' = pc + 1
  /\ sc' = sc
  /\ (pc' > Len(H) =>
       IF Mode = "emit" THEN JsonSerialize(OutDir \o "/lp_" \o Data[sc].id \o ".json", [lps |-> rep'.lps])
       ELSE JsonSerialize(OutDir \o "/v_" \o Data[sc].id \o ".json", [fails |-> rep'.fails, n |-> rep'.n]))

Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
