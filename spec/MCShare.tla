------------------------------- MODULE MCShare -------------------------------
(* Every history of at most MaxLen actions on two markets that share their tables;
   besides unit information, bids and demand each history has one more table, x. *)
EXTENDS Market, Json, IOUtils
CONSTANT MaxLen
VARIABLES x, n, tab, mk, log
MW(q) == q * Q
D(q) == q * P
Num(c) == [k |-> "num", c |-> c]
Xs == << "cap", "uigf", "ramp", "fcas", "maxav", "jcap", "ereg", "jramp", "inter", "loss", "gen", "fast" >>
Sv == "raise_reg"
Unit(u, r, lf) == [u |-> u, r |-> r, dt |-> "generator", lf |-> lf]
Info(lf) == [ev |-> "new", iv |-> 5, regions |-> << "N", "S" >>, info |-> << Unit("A", "N", lf), Unit("B", "N", K), Unit("C", "S", K) >>,
             nodt |-> FALSE, shuffle |-> FALSE, nolf |-> FALSE, noserv |-> FALSE]
Keys == << << "A", "energy" >>, << "B", "energy" >>, << "C", "energy" >>, << "A", Sv >>, << "B", Sv >> >>
Vol(q) == [ev |-> "vol", rows |-> [i \in 1..5 |-> [u |-> Keys[i][1], sv |-> Keys[i][2], dt |-> "generator", b |-> << MW(q[i]) >>]]]
Prc(p) == [ev |-> "price", rows |-> [i \in 1..5 |-> [u |-> Keys[i][1], sv |-> Keys[i][2], dt |-> "generator", p |-> << D(p[i]) >>]]]
Dem(a, b) == [ev |-> "demand", rows |-> << [r |-> "N", d |-> MW(a)], [r |-> "S", d |-> MW(b)] >>, el |-> Num(D(3000))]
Capac(a, b) == [ev |-> "cap", rows |-> << [u |-> "A", dt |-> "generator", q |-> MW(a)], [u |-> "B", dt |-> "generator", q |-> MW(b)] >>, el |-> Num(D(500))]
Ramp(a, b) == [ev |-> "ramp", rows |-> << [u |-> "A", dt |-> "generator", init |-> MW(a), up |-> MW(120), dn |-> MW(60)], [u |-> "C", dt |-> "generator", init |-> MW(b), up |-> MW(60), dn |-> MW(96)] >>,
               scada |-> << [u |-> "C", up |-> MW(b + 36), dn |-> -1] >>, fs |-> << >>, run |-> "no_fast_start_units", el |-> Num(D(1000))]
Req(a) == [ev |-> "fcas", rows |-> << [s |-> "F", r |-> "N", sv |-> Sv, q |-> MW(a), ty |-> "="] >>, el |-> Num(D(800)), notype |-> TRUE]
MaxAv(a, b) == [ev |-> "maxav", rows |-> << [u |-> "A", sv |-> Sv, dt |-> "generator", q |-> MW(a)], [u |-> "B", sv |-> Sv, dt |-> "generator", q |-> MW(b)] >>, el |-> NoEl]
Trap(u, sv, ma, lb, hb, mx) == [u |-> u, sv |-> sv, dt |-> "generator", ma |-> MW(ma), emin |-> 0, lb |-> MW(lb), hb |-> MW(hb), emax |-> MW(mx)]
JCap(a) == [ev |-> "jcap", rows |-> << Trap("A", "raise_6s", 10, 5, a, a + 10) >>, el |-> Num(D(700))]
EReg(a) == [ev |-> "ereg", rows |-> << Trap("A", Sv, 15, 5, a, a + 15), Trap("B", Sv, 10, 0, a, a + 5) >>, el |-> Num(D(700))]
JRamp(a) == [ev |-> "jramp", rows |-> << [u |-> "A", init |-> MW(a), up |-> MW(120), dn |-> MW(120)], [u |-> "B", init |-> MW(5), up |-> MW(96), dn |-> MW(60)] >>,
             fs |-> << >>, run |-> "no_fast_start_units", el |-> Num(D(900))]
Flat(q) == [ev |-> "inter", rows |-> << [i |-> "I", l |-> "I", to |-> "S", fr |-> "N", mx |-> MW(q), mn |-> -MW(q), tlf |-> K, flf |-> K, gf |-> 1] >>, cols |-> FALSE]
Pts(q) == << [x |-> -MW(40), y |-> MW(2 * q)], [x |-> 0, y |-> 0], [x |-> MW(40), y |-> MW(q)] >>
Loss(q) == [ev |-> "loss", rows |-> << [i |-> "I", l |-> "I", sh |-> 500000, pts |-> Pts(q)] >>]
Gen(a) == << [ev |-> "gen", rows |-> << [s |-> "X", ty |-> "<=", rhs |-> MW(a)] >>, el |-> Num(D(400))], [ev |-> "gunit", rows |-> << [s |-> "X", u |-> "A", sv |-> "energy", a |-> K] >>],
             [ev |-> "gregion", rows |-> << [s |-> "X", r |-> "S", sv |-> "energy", a |-> IF a > 50 THEN K ELSE 2 * K] >>] >>
Fast(a) == [ev |-> "fast", rows |-> << [u |-> "A", em |-> 3, t |-> 10, t2 |-> 30, t4 |-> 40, ml |-> MW(a)], [u |-> "B", em |-> IF a > 20 THEN 1 ELSE 3, t |-> 10, t2 |-> 30, t4 |-> 40, ml |-> MW(5)] >>, el |-> Num(D(600))]
X(v, z) == CASE z = "cap" -> << IF v = 1 THEN Capac(30, 20) ELSE Capac(10, 35) >>
             [] z = "uigf" -> << [ev |-> "uigf", rows |-> << [u |-> "C", q |-> MW(IF v = 1 THEN 12 ELSE 26)] >>, el |-> NoEl] >>
             [] z = "ramp" -> << IF v = 1 THEN Ramp(10, 20) ELSE Ramp(42, 5) >>
             [] z = "fcas" -> << Req(IF v = 1 THEN 12 ELSE 24) >>
             [] z = "maxav" -> << Req(18), IF v = 1 THEN MaxAv(8, 10) ELSE MaxAv(18, 2) >>
             [] z = "jcap" -> << JCap(IF v = 1 THEN 30 ELSE 12) >>
             [] z = "ereg" -> << Req(20), EReg(IF v = 1 THEN 25 ELSE 14) >>
             [] z = "jramp" -> << Req(20), JRamp(IF v = 1 THEN 40 ELSE 28) >>
             [] z = "inter" -> << Flat(IF v = 1 THEN 20 ELSE 6) >>
             [] z = "loss" -> << Flat(25), Loss(IF v = 1 THEN 4 ELSE 1) >>
             [] z = "gen" -> Gen(IF v = 1 THEN 40 ELSE 70)
             [] z = "fast" -> << Fast(IF v = 1 THEN 15 ELSE 35) >>
Contents(p, v) == CASE p = "info" -> << Info(IF v = 1 THEN K ELSE 900000) >>
                       [] p = "bids" -> IF v = 1 THEN << Vol(<< 60, 40, 50, 20, 10 >>), Prc(<< 20, 30, 50, 5, 8 >>) >> ELSE << Vol(<< 45, 60, 30, 15, 25 >>), Prc(<< 35, 28, 22, 9, 3 >>) >>
                       [] p = "dem" -> << IF v = 1 THEN Dem(45, 35) ELSE Dem(70, 20) >>
                       [] OTHER -> X(v, p)
Parts == {"info", "bids", "dem"} \cup Range(Xs)
Order == << "bids", "dem", x >>
Sh == INSTANCE Share WITH Markets <- {1, 2}, Content <- Contents
Init == /\ x \in Range(Xs) /\ n = 0
        /\ tab = [p \in Parts |-> 1]
        /\ mk = << << FoldLeft(LAMBDA s, p : Sh!Hand(s, p, 1), Sh!Start(1), Order) >>, << >> >>
        /\ log = << << "give", 1, "info", 1 >>, << "give", 1, "bids", 1 >>, << "give", 1, "dem", 1 >>, << "give", 1, x, 1 >> >>
Next == /\ n < MaxLen /\ n' = n + 1 /\ x' = x
        /\ \/ \E m \in {1, 2} : Sh!Build(m, Order) \/ Sh!Report(m) \/ \E p \in {"bids", "dem", x} : Sh!Give(m, p)
           \/ \E p \in {"info", "bids", "dem", x} : Sh!Alter(p)
Spec == Init /\ [][Next]_<< x, n, tab, mk, log >>
Alone == Sh!Alone
Owned == Sh!Owned
View == << x, n, log >>
ASSUME IF "VP_OUT" \in DOMAIN IOEnv THEN JsonSerialize(IOEnv.VP_OUT, [p \in Parts |-> << Contents(p, 1), Contents(p, 2) >>]) ELSE TRUE
=============================================================================
