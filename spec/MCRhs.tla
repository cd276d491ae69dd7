------------------------------- MODULE MCRhs -------------------------------
(* All equations of at most MaxLen terms from a menu, built one term at a time
   by the stack machine.  The equations are written out (-dump) and handed to the
   real calculator; RhsTrace judges what it answers. *)
EXTENDS Rhs, Json, IOUtils
CONSTANT MaxLen

T(ty, id, op, n, d) == [ty |-> ty, id |-> id, op |-> op, m |-> << n, d >>, df |-> << 3, 2 >>, body |-> << >>, lay |-> ""]
G(op, n, d, body, lay) == [ty |-> "G", id |-> "GRP", op |-> op, m |-> << n, d >>, df |-> Zero, body |-> body, lay |-> lay]
Data == << "T", "U1" >> :> << << 9, 1 >> >> @@ << "T", "U2" >> :> << << -5, 2 >> >> @@ << "A", "A1" >> :> << << -4, 1 >> >>
     @@ << "A", "A2" >> :> << << 3, 1 >>, << 5, 4 >>, << -1, 2 >> >> @@ << "S", "S1" >> :> << << 0, 1 >> >> @@ << "S", "S2" >> :> << << 1, 1 >> >>
     @@ << "R", "R1" >> :> << << 40, 1 >> >> @@ << "I", "I1" >> :> << << -7, 1 >> >> @@ << "W", "W1" >> :> << << 1, 1 >> >>
     @@ << "E", "E1" >> :> << << 5, 2 >> >> @@ << "M", "L1" >> :> << << 12, 1 >> >> @@ << "N", "L1" >> :> << << 16, 1 >> >>
Fns == "X1" :> << T("A", "A1", "", 2, 1), T("C", "K", "", 3, 1) >>
    @@ "X2" :> << T("E", "E1", "PUSH", 1, 1), T("U", "", "DUP", -1, 1), T("U", "", "MAX", 2, 1) >>
    @@ "X3" :> << G("", 2, 1, << T("S", "S2", "", 1, 1), T("I", "I1", "", -1, 1) >>, "after"), T("C", "K", "MUL", 1, 2) >>
Vals == << << "T", "U1" >>, << "A", "A1" >>, << "E", "E1" >> >>
B1 == << T("A", "A1", "", 1, 1), T("C", "K", "", 5, 1) >>
B2 == << T("T", "U2", "", 2, 1), T("T", "U1", "PUSH", 1, 1), T("U", "", "MIN", 1, 2) >>
Menu == SetToSeq(
  {T(ty[1], ty[2], "", 2, 1) : ty \in DOMAIN Data} \cup {T("X", x, "", 2, 1) : x \in DOMAIN Fns} \cup {T("C", "K", "", -3, 1)}
  \cup {T("A", "A1", op, -1, 2) : op \in Two \cup One1 \cup {"PUSH"}}
  \cup {T("T", "U1", op, 2, 1) : op \in Two \cup One1 \cup {"PUSH", "POP"}}
  \cup {T("C", "K", op, 4, 1) : op \in Two \cup (One1 \ {"STEP"}) \cup {"PUSH"}}
  \cup {T("C", "K", op, -2, 1) : op \in {"ABS", "NEG", "PUSH", "MAX", "MIN"}}
  \cup {T("E", "NONE", op, 2, 1) : op \in {"ADD", "PUSH", "STEP", "MAX"}}
  \cup {T("S", "S1", op, 1, 1) : op \in {"POP", "PUSH", "STEP"}}
  \cup {T("X", "X1", op, 1, 2) : op \in {"SUB", "PUSH", "ABS"}}
  \cup {T("U", "", op, 1, 1) : op \in Two \cup One1 \cup Moves \cup {"POP", "EXLEZ"}}
  \cup {T("U", "", op, -2, 1) : op \in Two \cup One1 \cup Moves \cup {"", "EXLEZ"}}
  \cup {G(op, 1, 2, B1, lay) : op \in {"", "PUSH", "MAX"}, lay \in {"after", "before"}}
  \cup {G(op, -1, 1, B2, lay) : op \in {"", "ADD", "STEP", "NEG"}, lay \in {"after", "before"}}
  \cup {G("", 2, 1, << G("", -1, 1, B1, lay), T("S", "S2", "", 1, 1) >>, lay) : lay \in {"before"}})

VARIABLES h, s
Eq(z) == [i \in 1..Len(z) |-> Menu[z[i]]]
Sub0(t) == IF t.ty = "G" THEN EvalX1(Data, Fns, t.body) ELSE Fn(Data, Fns, t)
Init == h = << >> /\ s = Start
Next == /\ Len(h) < MaxLen /\ s.ok = "y"
        /\ \E k \in 1..Len(Menu) : /\ h' = Append(h, k) /\ s' = Step(Data, s, Menu[k], Sub0)
Spec == Init /\ [][Next]_<<h, s>>
View == h

\* the machine built term by term and the equation read as a whole agree
Whole == Result(s) = Eval(Data, Fns, Eq(h))
NeverEmpty == Len(s.st) >= 1
\* equations without operators are the weighted sum of their terms
Plain == (\A i \in 1..Len(h) : Menu[h[i]].op = "" /\ Menu[h[i]].ty \notin {"U", "G", "X", "C"}) /\ s.ok = "y" =>
           s.st = << FoldLeft(LAMBDA a, t : Add(a, Mul(t.m, Value(Data, t))), Zero, Eq(h)) >>
\* a group is worth the same wherever its members lie, and the same as a stack term when it stands alone (A.5)
Brackets == s.ok = "y" /\ h # << >> /\ Last(Eq(h)).ty = "G" /\ Last(Eq(h)).op = "" /\ Len(h) = 1 =>
              s.st[1] = Mul(Last(Eq(h)).m, EvalX1(Data, Fns, Last(Eq(h)).body).v)
\* every value in the stack came within the bounds of exact arithmetic
Exact == s.ok = "y" => \A i \in 1..Len(s.st) : Small(s.st[i])

ASSUME IF "VP_OUT" \in DOMAIN IOEnv THEN JsonSerialize(IOEnv.VP_OUT, [menu |-> Menu, fns |-> Fns,
   data |-> [i \in 1..Cardinality(DOMAIN Data) |-> LET k == SetToSeq(DOMAIN Data)[i] IN [ty |-> k[1], id |-> k[2], v |-> Data[k]]]]) ELSE TRUE
=============================================================================
