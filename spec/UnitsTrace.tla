----------------------------- MODULE UnitsTrace ------------------------------
(* Tables recorded from real UnitData objects over synthetic cases. Numbers come in
   thousandths of a quarter MW; prices in hundredths of sixteenths. *)
EXTENDS Units, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES k, done
Init == k \in 1..Len(Traces) /\ done = FALSE
Bad(cl, wh, got, want) == << [cl |-> cl, wh |-> wh, got |-> ToString(got), want |-> ToString(want)] >>
Near(g, q) == Abs(g * q[2] - 1000 * q[1]) <= 2 * q[2]
Is(g, n) == Abs(g - 1000 * n) <= 2
Opt(g, o) == IF Absent(o) THEN Absent(g) ELSE ~Absent(g) /\ Is(The(g), The(o))

\* rows are keyed; each wanted key must be there once and pass, no other rows
Keys(rows) == {rows[i].key : i \in 1..Len(rows)}
Row(rows, x) == CHOOSE r \in Range(rows) : r.key = x
Table(name, rows, want, open, ok(_, _)) ==
  LET ks == Keys(rows) IN
  IF Len(rows) # Cardinality(ks) THEN Bad(name \o "-row-twice", name, rows, "")
  ELSE IF ks \ (want \cup open) # {} THEN Bad(name \o "-row-too-many", name, ks \ want, "")
  ELSE IF want \ ks # {} THEN Bad(name \o "-row-missing", name, want \ ks, "")
  ELSE FlattenSeq(SetToSeq({IF ok(x, Row(rows, x)) THEN << >> ELSE Bad(name \o "-value", ToString(x), Row(rows, x), "") : x \in want \cap ks}))
UnitOf(c, id) == CHOOSE u \in Range(c.units) : u.id = id
BidOf(c, key) == LET u == UnitOf(c, key[1]) IN CHOOSE b \in Bids(u) : Service(b.ty) = key[2] /\ Side(u, b) = key[3]
ESides(c, S(_)) == UNION {{<< u.id, Side(u, b) >> : b \in Energy(u)} : u \in {v \in Range(c.units) : S(v)}}
EBid(c, key) == LET u == UnitOf(c, key[1]) IN CHOOSE b \in Energy(u) : Side(u, b) = key[2]
FKeys(c, S(_, _), us) == UNION {{<< u.id, Service(b.ty), Side(u, b) >> : b \in {x \in Fcas(u) : S(u, x)}} : u \in us}
All(v) == TRUE
OpenKeys(c) == FKeys(c, LAMBDA u, b : Open(u, b), Range(c.units))
\* offers of units without details are nowhere, those that may be enabled are; trapezia of units without details are not judged
BidKeys(c) == UNION {{<< u.id, "energy", Side(u, b) >> : b \in Energy(u)} : u \in Known(c)} \cup FKeys(c, LAMBDA u, b : Enabled(c, u, b), Known(c))
TrapKeys(c, R(_)) == {x \in FKeys(c, LAMBDA u, b : Enabled(c, u, b), Known(c)) : R(x[2])}
TrapOpen(c) == OpenKeys(c) \cup FKeys(c, LAMBDA u, b : TRUE, Range(c.units) \ Known(c))
TrapOk(c, x, r) == LET t == Scaled(UnitOf(c, x[1]), BidOf(c, x)) IN
  Near(r.max, t.max) /\ Near(r.emin, t.emin) /\ Near(r.lo, t.lo) /\ Near(r.hi, t.hi) /\ Near(r.emax, t.emax)
FsOf(c) == {u \in Range(c.units) : ~Absent(u.fs)}

JudgeCall(c, q, processed, trapped) ==
  IF (q.c \in {"max_avail", "reg_trap", "con_trap"} /\ ~trapped) \/ (q.c = "add_trap" /\ ~processed)
  THEN IF q.err = "MethodCallOrderError" THEN << >> ELSE Bad("call-order", q.c, q.err, "MethodCallOrderError")
  ELSE IF q.err # "none" THEN Bad("error", q.c, q.err, "none")
  ELSE CASE q.c = "availability" -> Table("availability", q.rows, ESides(c, LAMBDA u : Scheduled(c, u)), {}, LAMBDA x, r : Is(r.v, EBid(c, x).max))
    [] q.c = "uigf" -> Table("forecast", q.rows, {<< u.id >> : u \in {v \in Range(c.units) : SemiSched(v)}}, {}, LAMBDA x, r : Is(r.v, The(UnitOf(c, x[1]).uigf)))
    [] q.c = "ramps" -> Table("ramp-rates", q.rows, ESides(c, All), {},
         LAMBDA x, r : Is(r.up, EBid(c, x).up) /\ Is(r.dn, EBid(c, x).dn) /\ Is(r.init, Init0(c, UnitOf(c, x[1]))))
    [] q.c = "scada" -> Table("telemetered-rates", q.rows, {<< u.id >> : u \in {v \in Range(c.units) : ~Absent(v.up) \/ ~Absent(v.dn)}}, {},
         LAMBDA x, r : LET u == UnitOf(c, x[1]) IN Opt(r.up, u.up) /\ Opt(r.dn, u.dn) /\ (q.full = ~Absent(r.init)) /\ (q.full => Is(The(r.init), Init0(c, u))))
    [] q.c = "initial" -> Table("initial-output", q.rows, {<< u.id >> : u \in Range(c.units)}, {}, LAMBDA x, r : Is(r.v, Init0(c, UnitOf(c, x[1]))))
    [] q.c = "info" -> Table("unit-info", q.rows, UNION {{<< u.id, s >> : s \in Sides(u)} : u \in Known(c)}, {},
         LAMBDA x, r : LET u == UnitOf(c, x[1]) IN r.region = The(u.det).region /\ Abs(r.lf - 1000 * LossFactor(u, x[2])) <= 2)
    [] q.c = "bids" ->
         Table("volume-bids", q.rows, BidKeys(c), OpenKeys(c), LAMBDA x, r : \A i \in 1..10 : Is(r.vol[i], BidOf(c, x).vol[i]))
         \o Table("price-bids", q.prices, BidKeys(c), OpenKeys(c), LAMBDA x, r : \A i \in 1..10 :
              Abs(r.price[i] - 100 * BidOf(c, x).price[i] * (IF x[2] = "energy" THEN LossFactor(UnitOf(c, x[1]), x[3]) ELSE 16)) <= 2)
         \o (IF Keys(q.rows) = Keys(q.prices) THEN << >> ELSE Bad("bids-without-price", "bids", Keys(q.rows), Keys(q.prices)))
    [] q.c = "add_trap" -> << >>
    [] q.c = "max_avail" -> Table("fcas-availability", q.rows, TrapKeys(c, All), TrapOpen(c), LAMBDA x, r : Near(r.max, Scaled(UnitOf(c, x[1]), BidOf(c, x)).max))
    [] q.c = "reg_trap" -> Table("regulation-trapezium", q.rows, TrapKeys(c, LAMBDA s : s \in Reg), {x \in TrapOpen(c) : x[2] \in Reg}, LAMBDA x, r : TrapOk(c, x, r))
    [] q.c = "con_trap" -> Table("contingency-trapezium", q.rows, TrapKeys(c, LAMBDA s : s \notin Reg), {x \in TrapOpen(c) : x[2] \notin Reg}, LAMBDA x, r : TrapOk(c, x, r))
    [] q.c = "modes" -> Table("current-mode", q.rows, {<< u.id >> : u \in FsOf(c)}, {}, LAMBDA x, r : r.mode = Now(c, The(UnitOf(c, x[1]).fs)).mode)
    [] q.c = "advance" -> LET on == [u \in Range(q.dispatched) |-> TRUE] IN
         Table("fast-start", q.rows, {<< u.id >> : u \in {v \in FsOf(c) : v.id \in Range(q.present)}}, {},
           LAMBDA x, r : LET f == The(UnitOf(c, x[1]).fs)
                             a == Advance(c, f, x[1] \in Range(q.dispatched))
                         IN r.mode = a.mode /\ Is(r.t, a.t) /\ Is(r.t2, f.t2) /\ Is(r.t4, f.t4) /\ Is(r.min, f.min)
                            /\ (a.mode \in {3, 4} => Opt(r.two, a.two)))
Judge(t) == FoldLeft(LAMBDA a, j : LET q == t.calls[j]
                                       f == JudgeCall(t, q, a.p, a.tr) IN
     [p |-> a.p \/ (q.c = "bids" /\ q.err = "none"), tr |-> a.tr \/ (q.c = "add_trap" /\ q.err = "none"),
      fails |-> a.fails \o [x \in 1..Len(f) |-> f[x] @@ [at |-> j]]],
   [p |-> FALSE, tr |-> FALSE, fails |-> << >>], [j \in 1..Len(t.calls) |-> j])
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ JsonSerialize(IOEnv.VP_OUT \o "/v_" \o Traces[k].id \o ".json",
             [fails |-> Judge(Traces[k]).fails,
              enabled |-> Cardinality(FKeys(Traces[k], LAMBDA u, b : Enabled(Traces[k], u, b), Range(Traces[k].units))),
              offered |-> Cardinality(FKeys(Traces[k], LAMBDA u, b : TRUE, Range(Traces[k].units)))])
Spec == Init /\ [][Next]_<<k, done>>
=============================================================================
