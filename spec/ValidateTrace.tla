--------------------------- MODULE ValidateTrace ---------------------------
(* Histories of refused and accepted calls recorded from the real market. *)
EXTENDS Validate, Json, IOUtils
Data == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES k, done
Init == k \in 1..Len(Data) /\ done = FALSE
Step(t, j) == LET e == t.calls[j] IN
  IF e.c \in Tables THEN TableVerdict(t.v, e.c, e.tab, e.err)
  ELSE IF e.err = Order[e.c] THEN << >> ELSE << Fail(IF e.err = "none" THEN "invalid-call-accepted" ELSE "wrong-error", e.c, e.err, Order[e.c]) >>
Judge(t) == FlattenSeq([j \in 1..Len(t.calls) |-> [x \in 1..Len(Step(t, j)) |-> Step(t, j)[x] @@ [at |-> j]]])
  \o (IF SameOutcome(t.after, t.before) THEN << >> ELSE << Fail("refused-call-left-a-trace", t.after.st, ToString(t.after.q), ToString(t.before.q)) @@ [at |-> 0] >>)
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ JsonSerialize(IOEnv.VP_OUT \o "/v_" \o Data[k].id \o ".json", [fails |-> Judge(Data[k]), n |-> 1])
Spec == Init /\ [][Next]_<<k, done>>
=============================================================================
