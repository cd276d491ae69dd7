----------------------------- MODULE GridTrace -----------------------------
(* Judges what the real market reported for the cases of MCGrid, by brute force. *)
EXTENDS Grid, Json, IOUtils
Data == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES i, done
Init == i \in 1..Len(Data) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ i' = i
        /\ JsonSerialize(IOEnv.VP_OUT \o "/v_" \o Data[i].id \o ".json", [fails |-> Judge(Data[i].c, Data[i].o)])
Spec == Init /\ [][Next]_<< i, done >>
=============================================================================
