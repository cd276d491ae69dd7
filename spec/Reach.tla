------------------------------- MODULE Reach -------------------------------
(* What one unit can physically do in one dispatch interval, told without
   formulas: outputs are reached by moving tick by tick, start profiles are
   walked minute by minute, and reserves are points under the trapezium that a
   unit may occupy even after regulation has moved it.  MCReach checks that the
   limits that Market derives are exactly these, and every case is replayed.

   Outputs of the moving kinds are in tenths of a megawatt, an interval has Ticks
   ticks, rates are tenths per tick.  Reserve kinds count whole megawatts, the
   reserve under the trapezium sixtieths of one.  -1 stands for "not given". *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Ticks == 12
Lo2(a, b) == IF a <= b THEN a ELSE b
Hi2(a, b) == IF a >= b THEN a ELSE b
Top == 90                     \* offered volume of each side, tenths

(*------------------------------- moving: ramps -----------------------------*)
Capped(rate, tele) == IF tele < 0 THEN rate ELSE Lo2(rate, tele)
\* not held to ramping: a fast start unit that is still (first run), or will still be
\* (second run), on the inflexible part of its profile
Held(c) == \/ c.run = "no_fast_start_units"
           \/ c.run = "fast_start_first_run" /\ c.cm \notin {0, 1, 2}
           \/ c.run = "fast_start_second_run" /\ c.em \notin {0, 1, 2}
\* reached minimum loading inside the interval, t2e ticks before its end
Late(c) == c.run = "fast_start_second_run" /\ c.t2e >= 0

\* one tick: a storage moves along one axis and uses the rate of the side it is on
Rise(c, x) ==
  CASE c.dt = "generator" -> x + Capped(c.gu, c.su)
    [] c.dt = "load" -> x + Capped(c.lu, c.su)
    [] OTHER -> IF x >= 0 THEN x + c.gu ELSE x + c.ld
Fall(c, x) ==
  CASE c.dt = "generator" -> x - Capped(c.gd, c.sd)
    [] c.dt = "load" -> x - Capped(c.ld, c.sd)
    [] OTHER -> IF x <= 0 THEN x - c.lu ELSE x - c.gd
MoveHi(c, t, hi) == IF Late(c) /\ t + 1 <= Ticks - c.t2e THEN c.ml ELSE Rise(c, hi)
StartHi(c) == IF Late(c) THEN c.ml ELSE c.init
\* telemetered rates bound the whole movement of a storage
Final(c, hi, lo) ==
  IF c.dt # "bdu" THEN << hi, lo >>
  ELSE << IF c.su < 0 THEN hi ELSE Lo2(hi, c.init + c.su * Ticks), IF c.sd < 0 THEN lo ELSE Hi2(lo, c.init - c.sd * Ticks) >>

(*--------------------------- moving: start profiles ------------------------*)
\* ticks are minutes here; mode two climbs to minimum loading, mode four lets go of it
ProfileHi(c, t, hi) == IF c.em = 2 THEN hi + c.ml \div c.t2 ELSE hi
ProfileLo(c, t, lo) == CASE c.em = 2 -> lo + c.ml \div c.t2 [] c.em = 4 -> lo - c.ml \div c.t4 [] OTHER -> lo
ProfileStart(c) ==
  CASE c.em \in {0, 1} -> << 0, 0 >> [] c.em = 2 -> << 0, 0 >> [] c.em \in {3, 4} -> << Top, c.ml >> [] OTHER -> << Top, 0 >>

Length(c) == CASE c.k = "ramp" -> Ticks [] c.k = "fast" -> c.t [] OTHER -> 1
Start(c) == CASE c.k = "ramp" -> << StartHi(c), c.init >> [] c.k = "fast" -> ProfileStart(c) [] OTHER -> << 0, 0 >>
Move(c, t, x) ==
  CASE c.k = "ramp" -> << MoveHi(c, t, x[1]), Fall(c, x[2]) >>
    [] c.k = "fast" -> << ProfileHi(c, t, x[1]), ProfileLo(c, t, x[2]) >>
    [] OTHER -> x
End(c, x) == CASE c.k = "ramp" -> Final(c, x[1], x[2]) [] OTHER -> x
Walk(c) == End(c, FoldLeft(LAMBDA x, t : Move(c, t - 1, x), Start(c), [t \in 1..Length(c) |-> t]))
\* the outputs a dispatch can choose from
Least(c) == IF c.dt = "bdu" THEN -Top ELSE 0
Room(c) == LET w == Walk(c) IN IF c.k = "ramp" /\ ~Held(c) THEN << Top, Least(c) >> ELSE << Lo2(w[1], Top), Hi2(w[2], Least(c)) >>

(*--------------------------------- reserves --------------------------------*)
\* trapezium corners (emin,0) (lb,ma) (hb,ma) (emax,0); point (e, f/60) on the inner side of each edge
Inside(tz, ma, e, f) ==
  LET Turn(x1, y1, x2, y2) == (x2 - x1) * (f - 60 * y1) - 60 * (y2 - y1) * (e - x1) IN
  /\ f >= 0
  /\ e >= tz[1] /\ e <= tz[4]
  /\ Turn(tz[1], 0, tz[2], ma) <= 0
  /\ f <= 60 * ma
  /\ Turn(tz[3], ma, tz[4], 0) <= 0
\* regulation that lets output (or consumption) go up and down
UpReg(c, q) == IF c.dt = "load" THEN q.lr ELSE q.rr
DnReg(c, q) == IF c.dt = "load" THEN q.rr ELSE q.lr
\* regulation must be deliverable by ramping: up and dn are the movements possible in the interval
Can(c, q) ==
  CASE c.k = "trap" -> Inside(c.tz, c.ma, q.e + UpReg(c, q), q.f) /\ Inside(c.tz, c.ma, q.e - DnReg(c, q), q.f)
    [] c.k = "ereg" -> Inside(c.tz, c.ma, q.e, q.f)
    [] c.k = "jr" ->
         /\ c.rv > 0 => IF c.dt = "load" THEN q.e - q.rr >= c.init - c.up ELSE q.e + q.rr <= c.init + c.up
         /\ c.lv > 0 => IF c.dt = "load" THEN q.e + q.lr <= c.init + c.dn ELSE q.e - q.lr >= c.init - c.dn
    [] OTHER -> TRUE
Es(c) == IF c.dt = "bdu" THEN -c.ev..c.ev ELSE 0..c.ev
Fs(c) == IF c.k \in {"trap", "ereg"} THEN 0..(60 * Lo2(c.ma, c.v)) ELSE {0}
\* what is possible without the reserve under the trapezium (less of it is always possible)
Points(c) == {q \in [e : Es(c), rr : 0..c.rv, lr : 0..c.lv, f : {0}] : Can(c, q)}
Gap(c, q) == IF q.e >= c.e THEN q.e - c.e ELSE c.e - q.e
\* energy first, then regulation, then the reserve under the trapezium
Wanted(c) ==
  LET ps == Points(c)
      gap == Min({Gap(c, q) : q \in ps})
      p1 == {q \in ps : Gap(c, q) = gap}
      reg == Max({q.rr + q.lr : q \in p1})
      p2 == {q \in p1 : q.rr + q.lr = reg}
      p3 == UNION {{r \in {[q EXCEPT !.f = f] : f \in Fs(c)} : Can(c, r)} : q \in p2}
      res == Max({q.f : q \in p3})
  IN {q \in p3 : q.f = res}
=============================================================================
