------------------------------ MODULE RhsTrace ------------------------------
(* Calls recorded from real calculators of right hand sides. Several calculators
   may stand on one loaded case; each has its own values. *)
EXTENDS Rhs, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES k, done
Init == k \in 1..Len(Traces) /\ done = FALSE

DataOf(t) == [x \in {<< t.data[i].ty, t.data[i].id >> : i \in 1..Len(t.data)} |->
                (CHOOSE r \in Range(t.data) : << r.ty, r.id >> = x).v]
EqOf(t, id) == (CHOOSE e \in Range(t.eqs) : e.id = id).terms
Bad(cl, wh, got, want) == << [cl |-> cl, wh |-> wh, got |-> ToString(got), want |-> ToString(want)] >>

JudgeOne(t, d, id, g) ==
  LET r == Eval(d, t.fns, EqOf(t, id))
  IN CASE r.ok = "?" -> << >>
       [] r.ok = "refused" -> IF g.st = "ValueError" THEN << >> ELSE Bad("unsound-equation-evaluated", id, g, "ValueError")
       [] g.st # "ok" -> Bad("error", id, g.st, r.v)
       [] OTHER -> IF << g.n, g.d >> = r.v THEN << >> ELSE Bad("wrong-right-hand-side", id, g.x, r.v)
JudgeCall(t, d, c) ==
  CASE c.c = "compute" /\ c.many /\ (\E i \in 1..Len(c.ids) : Eval(d, t.fns, EqOf(t, c.ids[i])).ok # "y") -> << >>
    [] c.c = "compute" -> FlattenSeq([i \in 1..Len(c.ids) |-> JudgeOne(t, d, c.ids[i], c.got[i])])
    [] c.c = "update" -> LET may == MayUpdate(d, c.ty, c.id) IN
         IF may /\ c.err # "none" THEN Bad("update-refused", c.ty \o " " \o c.id, c.err, "none")
         ELSE IF ~may /\ c.err = "none" THEN Bad("update-accepted", c.ty \o " " \o c.id, c.err, "an error")
         ELSE << >>
    [] c.c = "depends" -> LET want == {e \in {t.eqs[i].id : i \in 1..Len(t.eqs)} : DependsOn(t.fns, EqOf(t, e), c.ty, c.id)} IN
         IF c.err # "none" THEN Bad("error", "depends " \o c.id, c.err, want)
         ELSE IF Range(c.got) # want THEN Bad("wrong-dependents", c.ty \o " " \o c.id, c.got, want)
         ELSE IF Len(c.got) # Cardinality(want) THEN Bad("dependent-listed-twice", c.ty \o " " \o c.id, c.got, want) ELSE << >>
    [] c.c = "nemde" -> IF c.err = "none" /\ << c.got[1], c.got[2] >> = c.want THEN << >> ELSE Bad("wrong-nemde-value", c.id, c.got, c.want)

\* a fold over the calls: the data of each calculator and the failures so far
Judge(t) ==
  FoldLeft(LAMBDA a, j : LET c == t.calls[j] IN
     [d |-> IF c.c = "update" THEN [a.d EXCEPT ![c.calc] = Update(a.d[c.calc], c.ty, c.id, c.v)] ELSE a.d,
      fails |-> a.fails \o [x \in 1..Len(JudgeCall(t, a.d[c.calc], c)) |-> JudgeCall(t, a.d[c.calc], c)[x] @@ [at |-> j]],
      dec |-> a.dec + (IF c.c = "compute" THEN Cardinality({i \in 1..Len(c.ids) : Eval(a.d[c.calc], t.fns, EqOf(t, c.ids[i])).ok # "?"}) ELSE 1),
      n |-> a.n + (IF c.c = "compute" THEN Len(c.ids) ELSE 1)],
   [d |-> [x \in 1..t.calcs |-> DataOf(t)], fails |-> << >>, dec |-> 0, n |-> 0], [j \in 1..Len(t.calls) |-> j])
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ LET r == Judge(Traces[k]) IN JsonSerialize(IOEnv.VP_OUT \o "/v_" \o Traces[k].id \o ".json", [fails |-> r.fails, n |-> r.n, dec |-> r.dec])
Spec == Init /\ [][Next]_<<k, done>>
=============================================================================
