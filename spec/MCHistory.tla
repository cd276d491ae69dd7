----------------------------- MODULE MCHistory -----------------------------
(* Every history of at most MaxLen calls out of a menu, on one small market.

   Checked here on the specification: what is in force after a history depends
   only on the latest call of each kind, never on superseded calls or on the
   order of calls of different kinds.  The histories are written out (TLC -dump)
   and replayed on the real market; MarketTrace judges them. *)
EXTENDS Market, Json, IOUtils

CONSTANT MaxLen

MW(x) == x * Q
D(x) == x * P
Num(c) == [k |-> "num", c |-> c]
Info == << [u |-> "A", r |-> "N", dt |-> "generator", lf |-> K], [u |-> "B", r |-> "N", dt |-> "generator", lf |-> K],
           [u |-> "C", r |-> "S", dt |-> "generator", lf |-> K] >>
VolRows(a, b, c, f, g) ==
  << [u |-> "A", sv |-> "energy", dt |-> "generator", b |-> << a >>], [u |-> "B", sv |-> "energy", dt |-> "generator", b |-> << b >>],
     [u |-> "C", sv |-> "energy", dt |-> "generator", b |-> << c >>],
     [u |-> "A", sv |-> "raise_reg", dt |-> "generator", b |-> << f >>], [u |-> "B", sv |-> "raise_reg", dt |-> "generator", b |-> << g >>] >>
PrcRows(a, b, c, f, g) ==
  << [u |-> "A", sv |-> "energy", dt |-> "generator", p |-> << a >>], [u |-> "B", sv |-> "energy", dt |-> "generator", p |-> << b >>],
     [u |-> "C", sv |-> "energy", dt |-> "generator", p |-> << c >>],
     [u |-> "A", sv |-> "raise_reg", dt |-> "generator", p |-> << f >>], [u |-> "B", sv |-> "raise_reg", dt |-> "generator", p |-> << g >>] >>
Ramp(u, i, up, dn) == [u |-> u, dt |-> "generator", init |-> MW(i), up |-> MW(up), dn |-> MW(dn)]
Flat(x) == [i |-> "I", l |-> "I", to |-> "S", fr |-> "N", mx |-> MW(x), mn |-> -MW(x), tlf |-> K, flf |-> K, gf |-> 1]

Base == <<
  [ev |-> "new", iv |-> 5, regions |-> << "N", "S" >>, info |-> Info, nodt |-> FALSE, shuffle |-> FALSE, nolf |-> FALSE, noserv |-> FALSE],
  [ev |-> "vol", rows |-> VolRows(MW(60), MW(40), MW(50), MW(20), MW(10))],
  [ev |-> "price", rows |-> PrcRows(D(20), D(30), D(50), D(5), D(8))],
  [ev |-> "demand", rows |-> << [r |-> "N", d |-> MW(45)], [r |-> "S", d |-> MW(35)] >>, el |-> Num(D(3000))] >>

Menu == <<
  [ev |-> "demand", rows |-> << [r |-> "N", d |-> MW(70)], [r |-> "S", d |-> MW(20)] >>, el |-> Num(D(2000))],
  [ev |-> "price", rows |-> PrcRows(D(55), D(25), D(40), D(9), D(3))],
  [ev |-> "cap", rows |-> << [u |-> "A", dt |-> "generator", q |-> MW(30)], [u |-> "B", dt |-> "generator", q |-> MW(20)] >>, el |-> Num(D(500))],
  [ev |-> "cap", rows |-> << [u |-> "C", dt |-> "generator", q |-> MW(15)] >>, el |-> NoEl],
  [ev |-> "ramp", rows |-> << Ramp("A", 10, 240, 60), Ramp("B", 30, 60, 120) >>, scada |-> << >>, fs |-> << >>, run |-> "no_fast_start_units", el |-> Num(D(1000))],
  [ev |-> "ramp", rows |-> << Ramp("B", 10, 120, 60) >>, scada |-> << [u |-> "B", up |-> MW(36), dn |-> -1] >>, fs |-> << >>, run |-> "no_fast_start_units", el |-> NoEl],
  [ev |-> "inter", rows |-> << Flat(20) >>, cols |-> FALSE],
  [ev |-> "inter", rows |-> << [Flat(5) EXCEPT !.mn = -MW(12), !.tlf = 950000] >>, cols |-> FALSE],
  [ev |-> "fcas", rows |-> << [s |-> "F", r |-> "N", sv |-> "raise_reg", q |-> MW(12), ty |-> ">="] >>, el |-> Num(D(800)), notype |-> FALSE],
  [ev |-> "fcas", rows |-> << [s |-> "F", r |-> "N", sv |-> "raise_reg", q |-> MW(25), ty |-> "="],
                             [s |-> "G", r |-> "N", sv |-> "raise_reg", q |-> MW(4), ty |-> ">="] >>,
     el |-> [k |-> "sets", cs |-> << [s |-> "F", c |-> D(700)] >>], notype |-> FALSE],
  [ev |-> "maxav", rows |-> << [u |-> "A", sv |-> "raise_reg", dt |-> "generator", q |-> MW(8)] >>, el |-> NoEl],
  [ev |-> "gen", rows |-> << [s |-> "X", ty |-> "<=", rhs |-> MW(40)] >>, el |-> NoEl],
  [ev |-> "gen", rows |-> << [s |-> "X", ty |-> ">=", rhs |-> MW(65)], [s |-> "Y", ty |-> "=", rhs |-> MW(9)] >>, el |-> Num(D(400))],
  [ev |-> "gunit", rows |-> << [s |-> "X", u |-> "A", sv |-> "energy", a |-> K], [s |-> "Y", u |-> "B", sv |-> "raise_reg", a |-> K] >>],
  [ev |-> "gregion", rows |-> << [s |-> "X", r |-> "S", sv |-> "energy", a |-> K] >>],
  [ev |-> "ginter", rows |-> << [s |-> "X", i |-> "I", a |-> 2 * K] >>],
  [ev |-> "jramp", rows |-> << [u |-> "A", init |-> MW(40), up |-> MW(120), dn |-> MW(120)], [u |-> "B", init |-> MW(5), up |-> MW(96), dn |-> MW(60)] >>,
     fs |-> << >>, run |-> "no_fast_start_units", el |-> Num(D(900))],
  [ev |-> "uigf", rows |-> << [u |-> "C", q |-> MW(22)] >>, el |-> NoEl] >>

VARIABLES h, m
Fold(evs) == FoldLeft(LAMBDA a, e : Apply(a, e), NewMarket(Base[1]), evs)
Calls(s) == [i \in 1..Len(s) |-> Menu[s[i]]]

\* only the last call of each kind, ordered by kind
Canon(s) ==
  LET last == SelectSeq([i \in 1..Len(s) |-> << i, s[i] >>], LAMBDA z : \A j \in (z[1] + 1)..Len(s) : Menu[s[j]].ev # Menu[z[2]].ev)
  IN Map(LAMBDA z : z[2], SortSeq(last, LAMBDA x, y : x[2] < y[2]))

Init == h = << >> /\ m = Fold(Base)
Next == /\ Len(h) < MaxLen
        /\ \E k \in 1..Len(Menu) : h' = Append(h, k) /\ m' = Apply(m, Menu[k])
Spec == Init /\ [][Next]_<<h, m>>

LatestWins == m = Fold(Base \o Calls(Canon(h)))
\* an untouched kind keeps what the base put there
Untouched == ("demand" \notin {Menu[h[i]].ev : i \in 1..Len(h)}) => m.g["demand"] = Fold(Base).g["demand"]

\* the view keeps histories apart (all of them are replayed) without storing the market state
View == h
ASSUME IF "VP_OUT" \in DOMAIN IOEnv THEN JsonSerialize(IOEnv.VP_OUT, [base |-> Base, menu |-> Menu]) ELSE TRUE
=============================================================================
