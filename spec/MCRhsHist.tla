----------------------------- MODULE MCRhsHist -----------------------------
(* Every history of at most MaxLen calls on Calcs calculators of one case: values
   changed, changes refused, right hand sides asked for.  The histories are handed
   to the real calculators, which are then asked for everything (RhsTrace). *)
EXTENDS Rhs, Json, IOUtils
CONSTANTS MaxLen, Calcs

T(ty, id, op, n, d) == [ty |-> ty, id |-> id, op |-> op, m |-> << n, d >>, df |-> << 3, 2 >>, body |-> << >>, lay |-> ""]
G(op, n, d, body, lay) == [ty |-> "G", id |-> "GRP", op |-> op, m |-> << n, d >>, df |-> Zero, body |-> body, lay |-> lay]
Data0 == << "T", "U1" >> :> << << 9, 1 >> >> @@ << "A", "A1" >> :> << << -4, 1 >> >>
     @@ << "A", "A2" >> :> << << 3, 1 >>, << -1, 2 >> >> @@ << "R", "R1" >> :> << << 40, 1 >> >>
     @@ << "E", "E1" >> :> << << 5, 2 >> >> @@ << "M", "L1" >> :> << << 12, 1 >> >> @@ << "N", "L1" >> :> << << 16, 1 >> >>
Fns == "X1" :> << T("A", "A1", "PUSH", 2, 1), T("T", "U1", "MAX", 1, 1) >>
    @@ "X2" :> << G("", 2, 1, << T("E", "E1", "", 1, 1), T("A", "A1", "", -1, 1) >>, "after"), T("C", "K", "MUL", 1, 2) >>
Eqs == "Q0" :> << T("A", "A1", "", 2, 1), T("X", "X1", "", -1, 1), T("R", "R1", "", 1, 1) >>
    @@ "Q1" :> << T("X", "X2", "PUSH", 1, 1), T("M", "L1", "", 1, 2), T("U", "", "ADD", 2, 1) >>
    @@ "Q2" :> << T("N", "L1", "", 1, 1), G("MIN", 1, 1, << T("X", "X1", "", 1, 1), T("E", "E1", "", 4, 1) >>, "before"), T("A", "A2", "", 1, 1) >>
Keys == {<< "T", "U1" >>, << "A", "A1" >>, << "E", "E1" >>, << "M", "L1" >>, << "N", "L1" >>}
No == {<< "A", "A2" >>, << "R", "R1" >>, << "X", "X1" >>, << "T", "NONE" >>, << "C", "K" >>}
V == {<< -3, 1 >>, << 25, 2 >>}
Upd == {[c |-> "update", calc |-> i, ty |-> q[1], id |-> q[2], v |-> v] : i \in 1..Calcs, q \in Keys, v \in V}
  \cup {[c |-> "update", calc |-> i, ty |-> q[1], id |-> q[2], v |-> << 1, 1 >>] : i \in 1..Calcs, q \in No}
Cmp == {[c |-> "compute", calc |-> i, many |-> w[2], ids |-> w[1]] : i \in 1..Calcs, w \in {<< << "Q0" >>, FALSE >>, << << "Q1" >>, FALSE >>, << << "Q2" >>, FALSE >>, << << "Q0", "Q1", "Q2" >>, TRUE >>}}
Menu == SetToSeq(Upd) \o SetToSeq(Cmp)

VARIABLES h, data
Init == h = << >> /\ data = [i \in 1..Calcs |-> Data0]
Do(d, c) == IF c.c = "update" THEN [d EXCEPT ![c.calc] = Update(d[c.calc], c.ty, c.id, c.v)] ELSE d
Next == Len(h) < MaxLen /\ \E i \in 1..Len(Menu) : h' = Append(h, i) /\ data' = Do(data, Menu[i])
Spec == Init /\ [][Next]_<<h, data>>
View == h

Worth(i, q) == Eval(data[i], Fns, Eqs[q])
Last2(i, key) == {j \in 1..Len(h) : LET c == Menu[h[j]] IN c.c = "update" /\ c.calc = i /\ << c.ty, c.id >> = key}
\* the value in force is that of the last change that was not refused; the rest is as in the case
InForce == \A i \in 1..Calcs : \A key \in DOMAIN Data0 :
  data[i][key] = IF Last2(i, key) = {} \/ key \notin Keys THEN Data0[key] ELSE << Menu[h[Max(Last2(i, key))]].v >>
\* a right hand side changes only by changes of values it depends on, of that calculator
Touched(i, q) == \E j \in 1..Len(h) : LET c == Menu[h[j]] IN c.c = "update" /\ c.calc = i /\ DependsOn(Fns, Eqs[q], c.ty, c.id)
Apart == \A i \in 1..Calcs : \A q \in DOMAIN Eqs : ~Touched(i, q) => Worth(i, q) = Eval(Data0, Fns, Eqs[q])
Decided == \A i \in 1..Calcs : \A q \in DOMAIN Eqs : Worth(i, q).ok = "y"
ASSUME IF "VP_OUT" \in DOMAIN IOEnv THEN JsonSerialize(IOEnv.VP_OUT, [menu |-> Menu, fns |-> Fns, calcs |-> Calcs,
   eqs |-> [i \in 1..3 |-> [id |-> << "Q0", "Q1", "Q2" >>[i], terms |-> Eqs[<< "Q0", "Q1", "Q2" >>[i]]]],
   keys |-> SetToSeq(Keys \cup No),
   data |-> [i \in 1..Cardinality(DOMAIN Data0) |-> LET q == SetToSeq(DOMAIN Data0)[i] IN [ty |-> q[1], id |-> q[2], v |-> Data0[q]]]]) ELSE TRUE
=============================================================================
