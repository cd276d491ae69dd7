--------------------------------- MODULE Mms ---------------------------------
(* The database of MMS tables: filled month by month from an archive, asked for
   the rows that apply to a dispatch interval.

   A row is [k, sub, at, ver, eff, v, w]: identity, second identity or position, date (settlement,
   start or effective date, in five minute steps since 2010), version, and for constraints in
   dispatch the effective date they refer to; v and w stand for the columns with values, w may be
   absent. A file of the archive is [tab, ym, lean, rows]; ym counts months; lean files lack a column. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

ByTime == {"DISPATCHREGIONSUM", "DISPATCHLOAD", "DISPATCHPRICE", "DISPATCHCONSTRAINT", "DISPATCHINTERCONNECTORRES"}
ByStart == {"DUDETAILSUMMARY"}
ByVersion == {"DUDETAIL", "MNSP_INTERCONNECTOR"}
ByVersionInService == {"INTERCONNECTORCONSTRAINT", "LOSSMODEL", "LOSSFACTORMODEL"}
ByConstraint == {"GENCONDATA", "SPDREGIONCONSTRAINT", "SPDCONNECTIONPOINTCONSTRAINT", "SPDINTERCONNECTORCONSTRAINT"}
Plain == {"INTERCONNECTOR"}
(* tables of offers a user may add: an offer for every interval, an offer for every trading day *)
ByInterval == {"BIDPEROFFER_D"}
ByDay == {"BIDDAYOFFER_D"}
Tables == ByTime \cup ByInterval \cup ByDay \cup ByStart \cup ByVersion \cup ByVersionInService \cup ByConstraint \cup Plain
Latest == ByStart \cup ByVersion \cup ByVersionInService \cup Plain
First == 2010 * 12

Empty == [t \in Tables |-> {}]
Files(a, tab, ym) == {f \in Range(a) : f.tab = tab /\ f.ym = ym}
Has(a, tab, ym) == Files(a, tab, ym) # {}
File(a, tab, ym) == CHOOSE f \in Files(a, tab, ym) : TRUE
Keep(f, r) == [k |-> r.k, sub |-> r.sub, at |-> r.at, ver |-> r.ver, eff |-> r.eff, v |-> r.v, w |-> IF f.lean THEN << >> ELSE r.w]

(* rows of the physical run, the first of those with the same key *)
Physical(f) == SelectSeq(f.rows, LAMBDA r : r.iv = 0)
Added(f) == LET p == Physical(f) IN {Keep(f, p[i]) : i \in {j \in 1..Len(p) : \A h \in 1..(j - 1) : p[h].k # p[j].k \/ p[h].sub # p[j].sub \/ p[h].at # p[j].at}}
Clash(old, new) == \E x \in old, y \in new : x.k = y.k /\ x.sub = y.sub /\ x.at = y.at
CanAdd(db, a, tab, ym) == Has(a, tab, ym) /\ ~Clash(db[tab], Added(File(a, tab, ym)))
Add(db, a, tab, ym) == [db EXCEPT ![tab] = @ \cup Added(File(a, tab, ym))]

(* what was there goes; of constraints every version ever published is kept, as last published *)
Key(r) == << r.k, r.sub, r.at, r.ver >>
Months(a, tab, ym) == {m \in First..ym : Has(a, tab, m) /\ ~File(a, tab, m).lean}
AllHist(a, tab, ym) == LET ms == Months(a, tab, ym)
                           R(m) == {Keep(File(a, tab, m), File(a, tab, m).rows[i]) : i \in 1..Len(File(a, tab, m).rows)}
                       IN UNION {{r \in R(m) : \A n \in ms : n > m => Key(r) \notin {Key(x) : x \in R(n)}} : m \in ms}
CanSet(a, tab, ym) == IF tab \in ByConstraint THEN Months(a, tab, ym) # {} ELSE Has(a, tab, ym)
Whole(f) == {Keep(f, f.rows[i]) : i \in 1..Len(f.rows)}
Set(db, a, tab, ym) == [db EXCEPT ![tab] = IF tab \in ByConstraint THEN AllHist(a, tab, ym) ELSE Whole(File(a, tab, ym))]

(* the month before the first too, for the first hours of the first *)
Span(from, to) == [i \in 1..(to - from + 2) |-> from - 2 + i]
CanPopulate(a, from, to) ==
  /\ \A m \in Range(Span(from, to)), tab \in ByTime : Has(a, tab, m)
  /\ \A tab \in Latest \cup ByConstraint : CanSet(a, tab, to)
  /\ \A tab \in ByTime : \A m, n \in Range(Span(from, to)) : m < n => ~Clash(Added(File(a, tab, m)), Added(File(a, tab, n)))
Populated(a, from, to) == [t \in Tables |-> IF t \in ByInterval \cup ByDay THEN {} ELSE IF t \in ByTime THEN UNION {Added(File(a, t, m)) : m \in Range(Span(from, to))}
                                            ELSE Set(Empty, a, t, to)[t]]

(* ---- what applies at t ---- *)
Ident(tab, r) == IF tab = "MNSP_INTERCONNECTOR" THEN << r.k, r.sub >> ELSE << r.k >>
Later(x, y) == x.at > y.at \/ (x.at = y.at /\ x.ver > y.ver)
InForce(rows, tab, t) == LET now == {r \in rows : r.at <= t} IN {r \in now : \A x \in now : Ident(tab, x) = Ident(tab, r) => ~Later(x, r)}
At(rows, t) == {r \in rows : r.at = t}
(* a trading day lasts from just after 4:00 to 4:00; it is given as midnight of the day it begins in *)
TradingDay(t) == ((t - 49) \div 288) * 288
Get(db, tab, t) ==
  IF tab \in ByTime \cup ByInterval THEN At(db[tab], t)
  ELSE IF tab \in ByDay THEN At(db[tab], TradingDay(t))
  ELSE IF tab \in ByStart \cup ByVersion THEN InForce(db[tab], tab, t)
  ELSE IF tab \in ByVersionInService THEN LET on == {r.k : r \in At(db["DISPATCHINTERCONNECTORRES"], t)} IN {r \in InForce(db[tab], tab, t) : r.k \in on}
  ELSE IF tab \in ByConstraint THEN LET on == {<< r.k, r.eff, r.ver >> : r \in At(db["DISPATCHCONSTRAINT"], t)} IN {r \in db[tab] : << r.k, r.at, r.ver >> \in on}
  ELSE db[tab]
=============================================================================
