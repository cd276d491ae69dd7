-------------------------------- MODULE Share --------------------------------
(* Markets made in one program, out of tables the program owns.

   A table of the pool is handed to any market, any number of times, and its
   owner alters it between calls. Handing a table over changes nothing but the
   part of the market it is for, and what counts is what the table held then.

   tab: which version of its content each table holds; mk: the markets, as the
   state Market.tla gives them; log: what happened, with the versions handed over. *)
EXTENDS Market
CONSTANTS Markets, Parts, Content(_, _)        \* Content(part, version): the calls of Market.tla that hand it over
VARIABLES tab, mk, log

None == << >>
Made(m) == mk[m] # None
Hand(s, p, v) == FoldLeft(LAMBDA a, e : Apply(a, e), s, Content(p, v))
Start(v) == NewMarket(Content("info", v)[1])

SInit == tab = [p \in Parts |-> 1] /\ mk = [m \in Markets |-> None] /\ log = << >>
Give(m, p) == /\ Made(m)
              /\ mk' = [mk EXCEPT ![m] = << Hand(@[1], p, tab[p]) >>]
              /\ log' = Append(log, << "give", m, p, tab[p] >>)
              /\ tab' = tab
\* a market made of all tables as they are, whatever it was before
Build(m, order) == /\ mk' = [mk EXCEPT ![m] = << FoldLeft(LAMBDA s, p : Hand(s, p, tab[p]), Start(tab["info"]), order) >>]
                   /\ log' = log \o [i \in 1..(Len(order) + 1) |-> IF i = 1 THEN << "give", m, "info", tab["info"] >> ELSE << "give", m, order[i - 1], tab[order[i - 1]] >>]
                   /\ tab' = tab
Alter(p) == /\ tab' = [tab EXCEPT ![p] = 3 - @]
            /\ log' = Append(log, << "alter", 0, p, 3 - tab[p] >>)
            /\ mk' = mk
Report(m) == /\ Made(m)
             /\ log' = Append(log, << "dispatch", m, "", 0 >>)
             /\ UNCHANGED << tab, mk >>

(* ---- guarantees ---- *)
\* what a market was handed since it was made
Own(m) == LET is == {i \in 1..Len(log) : log[i][2] = m /\ log[i][3] = "info"}
          IN IF is = {} THEN << >> ELSE SelectSeq(SubSeq(log, CHOOSE i \in is : \A j \in is : j <= i, Len(log)), LAMBDA x : x[2] = m /\ x[1] = "give")
(* a market is what its own calls make it, as if it were alone and its tables never changed *)
Alone == \A m \in Markets : Made(m) => LET o == Own(m) IN mk[m][1] = FoldLeft(LAMBDA s, x : Hand(s, x[3], x[4]), Start(o[1][4]), Tail(o))
(* only its owner alters a table *)
Owned == \A p \in Parts : tab[p] = 1 + (Cardinality({i \in 1..Len(log) : log[i][1] = "alter" /\ log[i][3] = p}) % 2)
=============================================================================
