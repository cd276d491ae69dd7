----------------------------- MODULE NetworkTrace ----------------------------
(* Tables recorded from the real loaders over synthetic cases and MMS tables. *)
EXTENDS Network, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES k, done
Init == k \in 1..Len(Traces) /\ done = FALSE
Bad(cl, wh, got, want) == << [cl |-> cl, wh |-> wh, got |-> ToString(got), want |-> ToString(want)] >>
Is(g, n) == Abs(g - 1000 * n) <= 2
Keys(rows) == {rows[i].key : i \in 1..Len(rows)}
Row(rows, x) == CHOOSE r \in Range(rows) : r.key = x
Table(name, rows, want, ok(_, _)) ==
  LET ks == Keys(rows) IN
  IF Len(rows) # Cardinality(ks) THEN Bad(name \o "-row-twice", name, rows, "")
  ELSE IF ks \ want # {} THEN Bad(name \o "-row-too-many", name, ks \ want, "")
  ELSE IF want \ ks # {} THEN Bad(name \o "-row-missing", name, want \ ks, "")
  ELSE FlattenSeq(SetToSeq({IF ok(x, Row(rows, x)) THEN << >> ELSE Bad(name \o "-value", ToString(x), Row(rows, x), "") : x \in want}))

Ids(S) == {<< x.id >> : x \in S}
Terms(c, f) == UNION {{<< k0.id, k0[f][j].u, Service(k0[f][j].ty) >> : j \in 1..Len(k0[f])} : k0 \in Range(c.cons)}
TermOf(c, f, x) == LET k0 == Con(c, x[1]) IN CHOOSE t \in Range(k0[f]) : t.u = x[2] /\ Service(t.ty) = x[3]
RhsOk(c, x, r) == Is(r.v, Con(c, x[1]).rhs) /\ r.type = Sense(Con(c, x[1]).type)

JudgeCall(c, q) ==
  IF q.err # "none" THEN Bad("error", q.c, q.err, "none")
  ELSE CASE q.c = "demand" -> Table("demand", q.rows, Ids(Range(c.regions)), LAMBDA x, r : Is(r.v, (CHOOSE y \in Range(c.regions) : y.id = x[1]).demand))
    [] q.c = "defs" -> Table("interconnector", q.rows, LinkKeys(c), LAMBDA x, r : LET l == LinkOf(c, x) IN
         r.from = l.from /\ r.to = l.to /\ Is(r.min, l.min) /\ Is(r.max, l.max) /\ Is(r.ftlf, l.ftlf) /\ Is(r.ttlf, l.ttlf) /\ r.f = l.f)
    [] q.c = "loss" ->
         Table("loss-function", q.rows, LinkKeys(c), LAMBDA x, r : /\ Is(r.share, Share(Ic(c, x[1])))
              /\ \A j \in 1..Len(q.flows) : Abs(r.at[j] - LinkLoss(c, x, q.flows[j])) <= 1)
         \o Table("break-point", q.points, UNION {{<< x[1], x[2], LinkOf(c, x).f * b.seg >> : b \in Range(Ic(c, x[1]).bps)} : x \in LinkKeys(c)},
              LAMBDA x, r : LET f == LinkOf(c, x).f IN Is(r.v, f * (CHOOSE b \in Range(Ic(c, x[1]).bps) : f * b.seg = x[3]).mw))
    [] q.c = "rhs" -> Table("right-hand-side", q.rows, Ids(Active(c)), LAMBDA x, r : RhsOk(c, x, r))
    [] q.c = "rhs_generic" -> Table("right-hand-side", q.rows, Ids(Active(c) \ FcasSets(c)), LAMBDA x, r : RhsOk(c, x, r))
    [] q.c = "unit_lhs" -> Table("unit-term", q.rows, Terms(c, "unit"), LAMBDA x, r : Is(r.v, TermOf(c, "unit", x).n))
    [] q.c = "region_lhs" -> Table("region-term", q.rows, Terms(c, "region"), LAMBDA x, r : Is(r.v, TermOf(c, "region", x).n))
    [] q.c = "inter_lhs" -> Table("interconnector-term", q.rows, Terms(c, "inter"), LAMBDA x, r : Is(r.v, TermOf(c, "inter", x).n))
    [] q.c = "fcas" -> Table("requirement", q.rows, {x \in Terms(c, "region") : Con(c, x[1]).solved}, LAMBDA x, r : RhsOk(c, x, r))
    [] q.c = "costs" -> Table("violation-cost", q.rows, Ids(Range(c.cons)), LAMBDA x, r : Is(r.v, Con(c, x[1]).price))
    [] q.c = "prices" -> Table("violation-price", q.rows, {<< p.id >> : p \in Range(c.prices)}, LAMBDA x, r : Is(r.v, (CHOOSE p \in Range(c.prices) : p.id = x[1]).v))
    [] q.c = "violations" -> Table("violation", q.rows, {<< p.id >> : p \in Range(c.viols)}, LAMBDA x, r : Is(r.v, (CHOOSE p \in Range(c.viols) : p.id = x[1]).v))
    [] q.c = "services" -> Table("service-price", q.rows, {<< p.region, p.service >> : p \in Range(c.services)},
         LAMBDA x, r : Is(r.v, (CHOOSE p \in Range(c.services) : p.region = x[1] /\ p.service = x[2]).v))
    [] q.c = "run" -> IF q.intervention = c.intervention /\ q.ocd = c.ocd THEN << >> ELSE Bad("kind-of-run", "run", << q.intervention, q.ocd >>, << c.intervention, c.ocd >>)
Judge(t) == FoldLeft(LAMBDA a, j : LET f == JudgeCall(t, t.calls[j]) IN a \o [x \in 1..Len(f) |-> f[x] @@ [at |-> j]], << >>, [j \in 1..Len(t.calls) |-> j])
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ JsonSerialize(IOEnv.VP_OUT \o "/v_" \o Traces[k].id \o ".json", [fails |-> Judge(Traces[k]), links |-> Cardinality(LinkKeys(Traces[k])), active |-> Cardinality(Active(Traces[k]))])
Spec == Init /\ [][Next]_<<k, done>>
=============================================================================
