------------------------------ MODULE TieTrace ------------------------------
EXTENDS TieBreak, Json, IOUtils
Data == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES k, done
Init == k \in 1..Len(Data) /\ done = FALSE
Judge(t) == IF t.st # "ok" THEN << [cl |-> "error", wh |-> t.msg, got |-> 0, want |-> 0] >> ELSE Fails(t.c, t.q)
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ JsonSerialize(IOEnv.VP_OUT \o "/v_" \o Data[k].id \o ".json", [fails |-> Judge(Data[k]), n |-> 1])
Spec == Init /\ [][Next]_<<k, done>>
=============================================================================
