----------------------------- MODULE MCRhsDeep -----------------------------
(* The stack itself: K values pushed, every sequence of at most MaxLen moves of the
   stack, and then everything that is left added up with a factor of three per step,
   so that each element counts with the place it has ended up in. *)
EXTENDS Rhs, Json, IOUtils
CONSTANTS MaxLen, Ks

T(ty, id, op, n, d) == [ty |-> ty, id |-> id, op |-> op, m |-> << n, d >>, df |-> << 3, 2 >>, body |-> << >>, lay |-> ""]
Data == << "T", "U1" >> :> << << 9, 1 >> >> @@ << "S", "S1" >> :> << << 0, 1 >> >> @@ << "A", "A1" >> :> << << -4, 1 >> >>
     @@ << "M", "L1" >> :> << << 12, 1 >> >> @@ << "N", "L1" >> :> << << 16, 1 >> >>
Pushes == << T("C", "K", "PUSH", 1, 1), T("C", "K", "PUSH", -2, 1), T("C", "K", "PUSH", 5, 1), T("T", "U1", "PUSH", 1, 1), T("A", "A1", "PUSH", 4, 1) >>
Menu == SetToSeq(
  {T("U", "", op, 1, 1) : op \in Moves \cup {"POP", "EXLEZ", "SUB", "MAX", "MUL"}} \cup {T("U", "", op, -2, 1) : op \in Moves \cup {"EXLEZ", "MIN", "ADD"}}
  \cup {T("S", "S1", "POP", 1, 1), T("T", "U1", "POP", 1, 1), T("A", "A1", "PUSH", -1, 1), T("A", "A1", "", 1, 1)})
Tail3 == T("U", "", "ADD", 3, 1)

VARIABLES k, h, s, n
NoSub0(t) == [v |-> Zero, ok |-> "?"]
After(x, ts) == FoldLeft(LAMBDA a, t : Step(Data, a, t, NoSub0), x, ts)
Init == k \in Ks /\ h = << >> /\ s = After(Start, SubSeq(Pushes, 1, k)) /\ n = k + 1
Next == /\ Len(h) < MaxLen /\ s.ok = "y"
        /\ \E i \in 1..Len(Menu) : h' = Append(h, i) /\ s' = Step(Data, s, Menu[i], NoSub0)
        /\ n' = Len(s'.st) /\ UNCHANGED k
Spec == Init /\ [][Next]_<<k, h, s, n>>
View == << k, h >>

Eq == SubSeq(Pushes, 1, k) \o [i \in 1..Len(h) |-> Menu[h[i]]] \o [i \in 1..(n - 1) |-> Tail3]
\* what the whole equation is worth: every element left with the weight of its place
Weighted == s.ok = "y" /\ Eval(Data, << >>, Eq).ok = "y" =>
  Eval(Data, << >>, Eq).v =
    IF n = 1 THEN s.st[1]
    ELSE FoldLeft(LAMBDA a, i : Mul(Add(a, s.st[i]), << 3, 1 >>), s.st[1], [i \in 1..(n - 1) |-> i + 1])
\* moves neither make nor lose an element (factor one)
Multiset(st) == [v \in Range(st) |-> Cardinality({i \in 1..Len(st) : st[i] = v})]
Moved == h # << >> /\ s.ok = "y" /\ (\A i \in 1..Len(h) : Menu[h[i]].ty = "U" /\ Menu[h[i]].op \in {"EXCH", "RSD", "RSU"} /\ Menu[h[i]].m = One) =>
           Multiset(s.st) = Multiset(After(Start, SubSeq(Pushes, 1, k)).st)
ASSUME IF "VP_OUT" \in DOMAIN IOEnv THEN JsonSerialize(IOEnv.VP_OUT, [menu |-> Menu, pushes |-> Pushes, last |-> Tail3, fns |-> << >>,
   data |-> [i \in 1..Cardinality(DOMAIN Data) |-> LET q == SetToSeq(DOMAIN Data)[i] IN [ty |-> q[1], id |-> q[2], v |-> Data[q]]]]) ELSE TRUE
=============================================================================
