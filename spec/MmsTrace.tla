------------------------------- MODULE MmsTrace ------------------------------
(* Histories recorded from a real DBManager over a stand-in archive. *)
EXTENDS Mms, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES k, done
Init == k \in 1..Len(Traces) /\ done = FALSE
Bad(cl, q, got, want) == << [cl |-> cl, wh |-> q.c \o " " \o q.tab, got |-> ToString(got), want |-> ToString(want)] >>
\* one call: the state after it (<< >> when a failure may have left anything) and complaints
Step(a, db, q) ==
  LET ok == q.err = "none"
      refuse(can, then) == IF can THEN IF ok THEN [db |-> << then >>, f |-> << >>] ELSE [db |-> << >>, f |-> Bad("error", q, q.err, "none")]
                           ELSE IF ok THEN [db |-> << >>, f |-> Bad("not-refused", q, q.err, "an error")] ELSE [db |-> IF q.c = "populate" THEN << >> ELSE << db >>, f |-> << >>]
  IN CASE q.c = "create" -> refuse(TRUE, Empty)
       [] q.c = "add" -> refuse(CanAdd(db, a, q.tab, q.ym), Add(db, a, q.tab, q.ym))
       \* where the archive has nothing about constraints, it is open what becomes of the table
       [] q.c = "set" -> IF q.tab \in ByConstraint /\ ~CanSet(a, q.tab, q.ym) THEN [db |-> << >>, f |-> << >>] ELSE refuse(CanSet(a, q.tab, q.ym), Set(db, a, q.tab, q.ym))
       [] q.c = "populate" -> IF \E g \in ByConstraint : ~CanSet(a, g, q.ym) THEN [db |-> << >>, f |-> << >>] ELSE refuse(CanPopulate(a, q.from, q.ym), Populated(a, q.from, q.ym))
       [] q.c = "get" -> LET want == Get(db, q.tab, q.t)
                             got == Range(q.rows)
                         IN [db |-> << db >>, f |-> IF ~ok THEN Bad("error", q, q.err, "none")
                              ELSE IF Len(q.rows) # Cardinality(got) THEN Bad("row-twice", q, q.rows, "")
                              ELSE IF got \ want # {} THEN Bad("row-not-in-force", q, got \ want, want)
                              ELSE IF want \ got # {} THEN Bad("row-missing", q, want \ got, "") ELSE << >>]
Judge(t) == FoldLeft(LAMBDA s, j : LET q == t.calls[j]
                                       x == Step(t.arch, IF s.db = << >> THEN Empty ELSE s.db[1], q)
                                   IN IF s.db = << >> /\ q.c \notin {"create", "populate"} THEN s
                                      ELSE [db |-> x.db, f |-> s.f \o [i \in 1..Len(x.f) |-> x.f[i] @@ [at |-> j]], n |-> s.n + 1],
                     [db |-> << >>, f |-> << >>, n |-> 0], [j \in 1..Len(t.calls) |-> j])
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ JsonSerialize(IOEnv.VP_OUT \o "/v_" \o Traces[k].id \o ".json", LET r == Judge(Traces[k]) IN [fails |-> r.f, judged |-> r.n])
Spec == Init /\ [][Next]_<<k, done>>
=============================================================================
