-------------------------------- MODULE MCMms --------------------------------
(* All histories of at most MaxLen fillings over a small archive; written out and
   replayed in the real database, with every table asked at every time of Times. *)
EXTENDS Mms, Json, IOUtils
CONSTANT MaxLen
M1 == 2012 * 12 + 3
M2 == M1 + 1
R(k, sub, at, ver, eff, v, iv) == [k |-> k, sub |-> sub, at |-> at, ver |-> ver, eff |-> eff, v |-> v, w |-> << v + 1 >>, iv |-> iv]
F(tab, ym, lean, rows) == [tab |-> tab, ym |-> ym, lean |-> lean, rows |-> rows]
Arch == <<
  F("DISPATCHREGIONSUM", M1, FALSE, << R("A", "", 10, 0, 0, 1, 0), R("A", "", 10, 0, 0, 5, 1), R("B", "", 10, 0, 0, 2, 0), R("A", "", 11, 0, 0, 3, 0) >>),
  F("DISPATCHREGIONSUM", M2, TRUE, << R("A", "", 20, 0, 0, 4, 1), R("A", "", 20, 0, 0, 6, 0), R("A", "", 20, 0, 0, 7, 0) >>),
  F("DISPATCHINTERCONNECTORRES", M1, FALSE, << R("I", "", 10, 0, 0, 1, 0), R("J", "", 10, 0, 0, 1, 0), R("I", "", 20, 0, 0, 1, 0) >>),
  F("DISPATCHCONSTRAINT", M1, FALSE, << R("C", "", 10, 2, 5, 1, 0), R("C", "", 20, 10, 15, 1, 0), R("D", "", 10, 1, 5, 1, 0) >>),
  F("LOSSMODEL", M1, FALSE, << R("I", "1", 5, 9, 0, 1, 0), R("I", "2", 5, 9, 0, 2, 0), R("I", "1", 5, 10, 0, 3, 0), R("J", "1", 12, 1, 0, 4, 0), R("J", "1", 4, 3, 0, 5, 0) >>),
  F("LOSSMODEL", M2, FALSE, << R("I", "1", 15, 1, 0, 6, 0), R("I", "1", 5, 12, 0, 7, 0) >>),
  F("DUDETAILSUMMARY", M1, TRUE, << R("U", "", 10, 0, 0, 1, 0), R("U", "", 2, 0, 0, 2, 0), R("V", "", 11, 0, 0, 3, 0) >>),
  F("DUDETAILSUMMARY", M2, FALSE, << R("U", "", 20, 0, 0, 4, 0), R("U", "", 10, 0, 0, 1, 0) >>),
  F("GENCONDATA", M1, FALSE, << R("C", "", 5, 2, 0, 1, 0), R("C", "", 5, 1, 0, 2, 0), R("D", "", 5, 1, 0, 3, 0) >>),
  F("GENCONDATA", M2, FALSE, << R("C", "", 15, 10, 0, 4, 0), R("C", "", 5, 2, 0, 5, 0) >>),
  F("BIDDAYOFFER_D", M1, FALSE, << R("U", "ENERGY", 288, 0, 0, 1, 0), R("U", "RAISE6SEC", 288, 0, 0, 2, 0), R("U", "ENERGY", 576, 0, 0, 3, 0), R("U", "ENERGY", 576, 0, 0, 4, 0), R("V", "ENERGY", 864, 0, 0, 5, 0) >>),
  F("BIDPEROFFER_D", M1, FALSE, << R("U", "ENERGY", 625, 0, 0, 1, 0), R("U", "RAISE6SEC", 625, 0, 0, 2, 0), R("U", "ENERGY", 624, 0, 0, 3, 0) >>) >>
Times == {9, 10, 11, 15, 20, 335, 336, 337, 576, 624, 625, 912}
Menu == SetToSeq({[c |-> "create", tab |-> "", ym |-> 0]}
  \cup {[c |-> "add", tab |-> t, ym |-> m] : t \in {"DISPATCHREGIONSUM"}, m \in {M1, M2}}
  \cup {[c |-> "add", tab |-> t, ym |-> M1] : t \in {"DISPATCHINTERCONNECTORRES", "DISPATCHCONSTRAINT", "BIDDAYOFFER_D", "BIDPEROFFER_D"}}
  \cup {[c |-> "set", tab |-> t, ym |-> m] : t \in {"LOSSMODEL", "DUDETAILSUMMARY", "GENCONDATA"}, m \in {M1, M2}}
  \cup {[c |-> "add", tab |-> "DISPATCHCONSTRAINT", ym |-> M2], [c |-> "set", tab |-> "DUDETAIL", ym |-> M1]})
VARIABLES h, db
Init == h = << >> /\ db = Empty
Can(q) == CASE q.c = "create" -> TRUE [] q.c = "add" -> CanAdd(db, Arch, q.tab, q.ym) [] q.c = "set" -> CanSet(Arch, q.tab, q.ym)
Do(q) == CASE q.c = "create" -> Empty [] q.c = "add" -> Add(db, Arch, q.tab, q.ym) [] q.c = "set" -> Set(db, Arch, q.tab, q.ym)
Next == Len(h) < MaxLen /\ \E i \in 1..Len(Menu) : h' = Append(h, i) /\ db' = IF Can(Menu[i]) THEN Do(Menu[i]) ELSE db
Spec == Init /\ [][Next]_<< h, db >>

\* since the tables were made
Since == LET n == {i \in 1..Len(h) : Menu[h[i]].c = "create"} IN IF n = {} THEN h ELSE SubSeq(h, Max(n) + 1, Len(h))
Done(c, t) == {Menu[Since[i]].ym : i \in {j \in 1..Len(Since) : Menu[Since[j]].c = c /\ Menu[Since[j]].tab = t}}
LastSet(t) == LET n == {i \in 1..Len(Since) : Menu[Since[i]].c = "set" /\ Menu[Since[i]].tab = t} IN IF n = {} THEN {} ELSE {Menu[Since[Max(n)]].ym}
(* tables filled by adding hold the months added, in whatever order and however often asked for; the others hold what was set last *)
Content == /\ \A t \in ByTime \cup ByInterval \cup ByDay : db[t] = UNION {IF Has(Arch, t, m) THEN Added(File(Arch, t, m)) ELSE {} : m \in Done("add", t)}
           /\ \A t \in Latest \cup ByConstraint : db[t] = UNION {IF CanSet(Arch, t, m) THEN Set(Empty, Arch, t, m)[t] ELSE {} : m \in LastSet(t)}
(* one state of each thing applies, the last one that has begun *)
OneState == \A t \in ByStart \cup ByVersion \cup ByVersionInService : \A at \in Times : LET g == Get(db, t, at) IN
   /\ \A x, y \in g : Ident(t, x) = Ident(t, y) => x.at = y.at /\ x.ver = y.ver
   /\ \A x \in g : x.at <= at /\ \A y \in db[t] : Ident(t, y) = Ident(t, x) /\ Later(y, x) => y.at > at
(* an interval later nothing older applies *)
Forward == \A t \in ByStart \cup ByVersion : \A a, b \in Times : a <= b => \A x \in Get(db, t, a), y \in Get(db, t, b) : Ident(t, x) = Ident(t, y) => ~Later(x, y)
(* the offers of a day apply to 288 intervals, all of them the same *)
DayLong == \A t \in ByDay : \A a, b \in Times : (a - 49) \div 288 = (b - 49) \div 288 => Get(db, t, a) = Get(db, t, b)
AllDay == \A t \in ByDay : \A r \in db[t] : r \in Get(db, t, r.at + 49) /\ r \in Get(db, t, r.at + 336) /\ r \notin Get(db, t, r.at + 48) /\ r \notin Get(db, t, r.at + 337)
ASSUME IF "VP_OUT" \in DOMAIN IOEnv THEN JsonSerialize(IOEnv.VP_OUT, [menu |-> Menu, arch |-> Arch, times |-> SetToSeq(Times)]) ELSE TRUE
=============================================================================
