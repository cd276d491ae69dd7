------------------------------ MODULE MCReach ------------------------------
(* Every unit of Reach over small grids.  Checked at the end of each walk: the
   limits Market derives for the unit are the ones the walk arrives at (moving
   kinds) or the points under the trapezium (reserve kinds), no more, no less.
   The cases are written out, packed into markets and dispatched by the real code. *)
EXTENDS Market, Reach, Json, IOUtils
CONSTANTS Deep, Kinds

Rates == 0..3
Inits == IF Deep THEN {-42, -36, -30, -18, -12, -6, 0, 6, 12, 18, 30, 36, 42} ELSE {-42, -36, -18, -6, 0, 6, 18, 36, 42}
Ramp0 == [k |-> "ramp", dt |-> "bdu", init |-> 0, gu |-> 0, gd |-> 0, lu |-> 0, ld |-> 0, su |-> -1, sd |-> -1, iv |-> 5,
          run |-> "no_fast_start_units", cm |-> 0, em |-> 0, t2e |-> -1, ml |-> 0]
BduCases(g) ==
  {[Ramp0 EXCEPT !.init = g.init, !.gu = a, !.gd = b, !.lu = x, !.ld = g.ld, !.su = s[1], !.sd = s[2], !.iv = g.iv] :
     a \in Rates, b \in Rates, x \in Rates, s \in (IF Deep THEN {<< -1, -1 >>, << 2, 1 >>, << 0, 3 >>} ELSE {<< -1, -1 >>, << 1, 2 >>})}
OneCases(g) ==
  {[Ramp0 EXCEPT !.dt = g.dt, !.init = g.init, !.gu = IF g.dt = "generator" THEN a ELSE 0, !.gd = IF g.dt = "generator" THEN b ELSE 0,
                 !.lu = IF g.dt = "load" THEN a ELSE 0, !.ld = IF g.dt = "load" THEN b ELSE 0, !.su = s, !.sd = z, !.iv = g.iv] :
     a \in Rates, b \in Rates, s \in {-1, 0, 1, 3}, z \in {-1, 0, 2}}
FsCases(g) ==
  {[Ramp0 EXCEPT !.dt = g.dt, !.init = g.init, !.gu = IF g.dt = "generator" THEN a ELSE 0, !.gd = IF g.dt = "generator" THEN b ELSE 0,
                 !.lu = IF g.dt = "load" THEN a ELSE 0, !.ld = IF g.dt = "load" THEN b ELSE 0, !.iv = g.iv, !.run = g.run, !.su = s,
                 !.cm = m[1], !.em = m[2], !.t2e = m[3], !.ml = 30] :
     a \in {0, 1, 3}, b \in {1, 3}, s \in {-1, 2},
     m \in IF g.run = "fast_start_first_run" THEN {<< x, 0, -1 >> : x \in 0..5} ELSE {<< 0, x, -1 >> : x \in 0..5} \cup {<< 0, x, y >> : x \in {3, 4, 5}, y \in {0, 6, 12}}}
FastCases(g) ==
  {[k |-> "fast", dt |-> g.dt, em |-> g.em, t |-> t, t2 |-> a, t4 |-> b, ml |-> m, iv |-> g.iv, run |-> ""] :
     t \in {x \in (IF Deep THEN 0..6 ELSE {0, 1, 2, 4, 6}) : TRUE}, a \in {1, 3, 6}, b \in {2, 5, 6}, m \in {0, 30, 60}}
TrapCases(g) ==
  {[k |-> "trap", dt |-> g.dt, sv |-> g.sv, tz |-> << g.lo, b, h, m >>, ma |-> a, e |-> e, rv |-> r, lv |-> l, v |-> a + 1, ev |-> 5, iv |-> g.iv, run |-> "", rs |-> s] :
     b \in g.cn, h \in g.cn, m \in g.cn, a \in (IF Deep THEN {1, 2} ELSE {2}), e \in {IF g.dt = "bdu" THEN -2 ELSE 0, 1, 3, 5} \cup (IF Deep THEN {2, 4} ELSE {}),
     r \in {0, 1}, l \in {0, 1}, s \in IF g.dt = "bdu" THEN {"generator", "load"} ELSE {g.dt}}
EregCases(g) ==
  {[k |-> "ereg", dt |-> g.dt, sv |-> g.sv, tz |-> << g.lo, b, h, m >>, ma |-> a, e |-> e, rv |-> 0, lv |-> 0, v |-> r, ev |-> 5, iv |-> g.iv, run |-> "", rs |-> g.dt] :
     b \in g.lo..4, h \in g.lo..4, m \in g.lo..4, a \in (IF Deep THEN {1, 2} ELSE {2}), e \in (IF Deep THEN 0..5 ELSE {0, 2, 5}), r \in {1, 3}}
JrCases(g) ==
  {[k |-> "jr", dt |-> g.dt, init |-> g.init, up |-> a, dn |-> b, e |-> e, rv |-> r, lv |-> l, ev |-> 8, iv |-> g.iv, run |-> "", rs |-> s] :
     a \in {0, 1, 3}, b \in {0, 1, 3}, e \in {IF g.dt = "bdu" THEN -4 ELSE 0, 1, 4, 7}, r \in {0, 2}, l \in {0, 1}, s \in IF g.dt = "bdu" THEN {"generator", "load"} ELSE {g.dt}}

Ivs == IF Deep THEN {5, 30} ELSE {30}
Groups ==
  {g \in {[k |-> "bdu", init |-> i, ld |-> l, iv |-> v] : i \in Inits, l \in Rates, v \in Ivs \cup {5}}
    \cup {[k |-> "one", dt |-> d, init |-> i, iv |-> v] : d \in {"generator", "load"}, i \in {0, 6, 36, 42}, v \in Ivs \cup {5}}
    \cup {[k |-> "fsr", dt |-> d, init |-> i, iv |-> v, run |-> r] : d \in {"generator", "load"}, i \in {0, 30, 42}, v \in Ivs \cup {5},
                                                                       r \in {"fast_start_first_run", "fast_start_second_run"}}
    \cup {[k |-> "fast", dt |-> d, em |-> e, iv |-> v] : d \in {"generator", "load"}, e \in 0..5, v \in {5}}
    \cup {[k |-> "trap", dt |-> d, sv |-> s, lo |-> z, cn |-> 0..4, iv |-> v] : d \in {"generator", "load"}, s \in {"raise_6s", "lower_5min"}, z \in 0..4, v \in {5}}
    \cup {[k |-> "trapb", dt |-> "bdu", sv |-> s, lo |-> z, cn |-> {-3, -1, 0, 2}, iv |-> v] : s \in {"raise_6s", "lower_5min"}, z \in {-3, -1, 0, 2}, v \in {5}}
    \cup {[k |-> "ereg", dt |-> d, sv |-> s, lo |-> z, iv |-> v] : d \in {"generator", "load"}, s \in {"raise_reg", "lower_reg"}, z \in 0..4, v \in {5}}
    \cup {[k |-> "jr", dt |-> d, init |-> i, iv |-> v] : d \in {"generator", "load"}, i \in {0, 2, 5}, v \in Ivs \cup {5}}
    \cup {[k |-> "jrb", dt |-> "bdu", init |-> i, iv |-> v] : i \in {-4, -1, 0, 3}, v \in Ivs \cup {5}} : g.k \in Kinds}
Ordered(c) == IF c.k \in {"trap", "ereg"} THEN c.tz[1] <= c.tz[2] /\ c.tz[2] <= c.tz[3] /\ c.tz[3] <= c.tz[4] /\ c.tz[1] < c.tz[4]
              ELSE IF c.k = "fast" THEN (c.em = 2 => c.t <= c.t2) /\ (c.em = 4 => c.t <= c.t4)
              ELSE TRUE
\* a market the unit can be dispatched in at all
Possible(c) == IF c.k \in {"ramp", "fast"} THEN LET r == Room(c) IN r[1] >= r[2] ELSE Points(c) # {}
CasesOf(g) ==
  {c \in CASE g.k = "bdu" -> BduCases(g) [] g.k = "one" -> OneCases(g) [] g.k = "fsr" -> FsCases(g) [] g.k = "fast" -> FastCases(g)
           [] g.k \in {"trap", "trapb"} -> TrapCases(g) [] g.k = "ereg" -> EregCases(g) [] g.k \in {"jr", "jrb"} -> JrCases(g) : Ordered(c)}

(*------------------------------ as market calls ----------------------------*)
Tenth(n) == n * (Q \div 10)
PerH(c, r) == r * (720 \div c.iv) * (Q \div 10)          \* tenths per tick -> per hour
Sides(c) == IF c.dt = "bdu" THEN << "generator", "load" >> ELSE << c.dt >>
Info == [i \in {"generator", "load"} |-> [u |-> "U", r |-> "R", dt |-> i, lf |-> K]]
Moving(c) == c.k \in {"ramp", "fast"}
Bid(u, sv, dt, b, p) == [u |-> u, sv |-> sv, dt |-> dt, b |-> b, p |-> p]
Slack == << Bid("G", "energy", "generator", << 5000 * Q >>, << 0 >>), Bid("L", "energy", "load", << 5000 * Q >>, << 0 >>) >>
\* what pushes the unit to the end of its range; what it would rather produce
Push(c, dt, dir) == (IF (c.dt = "load") = (dir = "up") THEN 900 ELSE -900) * P
Two(dt, want, all) == IF dt = "generator" THEN << << want * Q, (all - want) * Q >>, << -900 * P, 900 * P >> >>
                      ELSE << << (all - want) * Q, want * Q >>, << -900 * P, 900 * P >> >>
EnergyBids(c, dir) ==
  IF Moving(c) THEN Map(LAMBDA d : Bid("U", "energy", d, << Tenth(Top) >>, << Push(c, d, dir) >>), Sides(c))
  ELSE Map(LAMBDA d : LET away == c.dt = "bdu" /\ ((d = "load") = (c.e >= 0))
                          z == Two(d, Abs(c.e), c.ev)
                      IN IF away THEN Bid("U", "energy", d, << c.ev * Q >>, << (IF d = "load" THEN -1000 ELSE 1000) * P >>)
                         ELSE Bid("U", "energy", d, z[1], z[2]), Sides(c))
ReserveBids(c) ==
  IF Moving(c) THEN << >>
  ELSE (IF c.rv > 0 THEN << Bid("U", "raise_reg", c.rs, << c.rv * Q >>, << -100 * P >>) >> ELSE << >>)
    \o (IF c.lv > 0 THEN << Bid("U", "lower_reg", c.rs, << c.lv * Q >>, << -100 * P >>) >> ELSE << >>)
    \o (IF c.k \in {"trap", "ereg"} THEN << Bid("U", c.sv, IF c.dt = "bdu" THEN "generator" ELSE c.dt, << c.v * Q >>, << -1 * P >>) >> ELSE << >>)
Bids(c, dir) == EnergyBids(c, dir) \o ReserveBids(c)
Trapezium(c) == [u |-> "U", sv |-> c.sv, dt |-> IF c.dt = "bdu" THEN "generator" ELSE c.dt, ma |-> c.ma * Q,
                 emin |-> c.tz[1] * Q, lb |-> c.tz[2] * Q, hb |-> c.tz[3] * Q, emax |-> c.tz[4] * Q]
MaxAv(c) == [u |-> "U", sv |-> c.sv, dt |-> IF c.dt = "bdu" THEN "generator" ELSE c.dt, q |-> c.ma * Q]
RampRow(c, d) == [u |-> "U", dt |-> d, init |-> Tenth(c.init), up |-> PerH(c, IF d = "generator" THEN c.gu ELSE c.lu), dn |-> PerH(c, IF d = "generator" THEN c.gd ELSE c.ld)]
Limits(c) ==
  CASE c.k = "ramp" ->
        << [ev |-> "ramp", rows |-> Map(LAMBDA d : RampRow(c, d), Sides(c)),
            scada |-> IF c.su < 0 /\ c.sd < 0 THEN << >>
                      ELSE << [u |-> "U", up |-> IF c.su < 0 THEN -1 ELSE PerH(c, c.su), dn |-> IF c.sd < 0 THEN -1 ELSE PerH(c, c.sd)] >>,
            fs |-> IF c.run = "no_fast_start_units" THEN << >>
                   ELSE << [u |-> "U", cm |-> c.cm, em |-> c.em, t2e |-> IF c.t2e < 0 THEN -1 ELSE (c.t2e * c.iv * 10) \div Ticks, ml |-> Tenth(c.ml)] >>,
            run |-> c.run, el |-> NoEl] >>
    [] c.k = "fast" ->
        << [ev |-> "fast", rows |-> << [u |-> "U", em |-> c.em, t |-> 10 * c.t, t2 |-> 10 * c.t2, t4 |-> 10 * c.t4, ml |-> Tenth(c.ml)] >>, el |-> NoEl] >>
    [] c.k = "trap" -> << [ev |-> "jcap", rows |-> << Trapezium(c) >>, el |-> NoEl], [ev |-> "maxav", rows |-> << MaxAv(c) >>, el |-> NoEl] >>
    [] c.k = "ereg" -> << [ev |-> "ereg", rows |-> << Trapezium(c) >>, el |-> NoEl], [ev |-> "maxav", rows |-> << MaxAv(c) >>, el |-> NoEl] >>
    [] c.k = "jr" -> << [ev |-> "jramp", rows |-> << [u |-> "U", init |-> c.init * Q, up |-> c.up * (60 \div c.iv) * Q, dn |-> c.dn * (60 \div c.iv) * Q] >>,
                         fs |-> << >>, run |-> "no_fast_start_units", el |-> NoEl] >>
Calls(c, dir) ==
  << [ev |-> "new", iv |-> c.iv, regions |-> << "R" >>, nodt |-> FALSE, shuffle |-> TRUE, nolf |-> FALSE, noserv |-> FALSE,
      info |-> Map(LAMBDA d : Info[d], Sides(c)) \o << [u |-> "G", r |-> "R", dt |-> "generator", lf |-> K], [u |-> "L", r |-> "R", dt |-> "load", lf |-> K] >>],
     [ev |-> "vol", rows |-> Bids(c, dir) \o Slack], [ev |-> "price", rows |-> Bids(c, dir) \o Slack],
     [ev |-> "demand", rows |-> << [r |-> "R", d |-> 0] >>, el |-> NoEl] >> \o Limits(c)

(*------------------------------ the walk, checked --------------------------*)
VARIABLES g, c, t, x
None == [k |-> "none"]
Init == g \in Groups /\ c = None /\ t = 0 /\ x = << 0, 0 >>
Next == \/ c = None /\ c' \in CasesOf(g) /\ t' = 0 /\ x' = Start(c') /\ g' = g
        \/ c # None /\ t < Length(c) /\ t' = t + 1 /\ x' = Move(c, t, x) /\ UNCHANGED << g, c >>
Spec == Init /\ [][Next]_<< g, c, t, x >>

Arrived == c # None /\ t = Length(c)
Mk == FoldLeft(LAMBDA a, e : Apply(a, e), NewMarket(Calls(c, "up")[1]), Calls(c, "up"))
D(sv, dt, q) == [u |-> "U", sv |-> sv, dt |-> dt, q |-> q]
At(z) == [flows |-> << >>, disp |-> IF c.dt = "bdu" THEN << D("energy", "generator", Max2(z, 0)), D("energy", "load", Max2(-z, 0)) >> ELSE << D("energy", c.dt, z) >>]
Fits(m, lp, o) == \A i \in 1..Len(lp.r) : lp.r[i].g # "demand" => WLe(Miss(lp.r[i].s, lp.r[i].b, RowAct(m, o, lp.r[i])), MissTol)
\* the walk ends at the limits of the market and the ends are what Room says
WalkIsLimit ==
  (Arrived /\ Moving(c)) =>
  LET m == Mk  lp == Lp(m)  e == End(c, x) IN
  /\ Walk(c) = e
  /\ (c.k = "ramp" /\ c.dt = "bdu") => (x[1] >= c.init /\ x[2] <= c.init)
  /\ LET hi == IF c.k = "ramp" /\ ~Held(c) THEN Top ELSE e[1]
         lo == IF c.k = "ramp" /\ ~Held(c) THEN Least(c) ELSE e[2]
     IN hi >= lo => /\ Fits(m, lp, At(Tenth(hi))) /\ Fits(m, lp, At(Tenth(lo)))
                    /\ hi < Top => ~Fits(m, lp, At(Tenth(hi + 1)))
                    /\ lo > Least(c) => ~Fits(m, lp, At(Tenth(lo - 1)))
PointAt(q) == [flows |-> << >>, disp |-> At(q.e * Q).disp \o (IF c.rv > 0 THEN << D("raise_reg", c.rs, q.rr * Q) >> ELSE << >>)
                 \o (IF c.lv > 0 THEN << D("lower_reg", c.rs, q.lr * Q) >> ELSE << >>)
                 \o (IF c.k \in {"trap", "ereg"} THEN << D(c.sv, IF c.dt = "bdu" THEN "generator" ELSE c.dt, (q.f * Q) \div 60) >> ELSE << >>)]
RoomIsHull ==
  (Arrived /\ ~Moving(c)) =>
  LET m == Mk  lp == Lp(m) IN
  /\ Points(c) # {} => Cardinality(Wanted(c)) = 1
  /\ \A e \in Es(c), r \in 0..c.rv, l \in 0..c.lv :
       LET ok == {f \in Fs(c) : Can(c, [e |-> e, rr |-> r, lr |-> l, f |-> f])}
           top == IF ok = {} THEN -1 ELSE Max(ok)
           P1(f) == PointAt([e |-> e, rr |-> r, lr |-> l, f |-> f])
       IN /\ ok = {f \in Fs(c) : f <= top}
          /\ ok # {} => Fits(m, lp, P1(top))
          /\ (ok = {} \/ (c.k \in {"trap", "ereg"} /\ top < 60 * c.v)) => ~Fits(m, lp, P1(top + 1))
Cases == UNION {{z \in CasesOf(y) : Possible(z)} : y \in Groups}
Expected(z) == IF Moving(z) THEN [hi |-> Room(z)[1], lo |-> Room(z)[2]]
               ELSE LET q == CHOOSE q \in Wanted(z) : TRUE IN q
ASSUME IF "VP_OUT" \in DOMAIN IOEnv
       THEN LET all == SetToSeq(Cases) IN
            JsonSerialize(IOEnv.VP_OUT, [cases |-> [i \in 1..Len(all) |-> LET z == all[i] IN
              [c |-> z, want |-> Expected(z), calls |-> IF Moving(z) THEN << Calls(z, "up"), Calls(z, "down") >> ELSE << Calls(z, "up") >>]]])
       ELSE TRUE
=============================================================================
