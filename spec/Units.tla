-------------------------------- MODULE Units --------------------------------
(* What the historical inputs make of the units of a NEMDE case: who is there, what
   they offer, where they start, how fast they may move, which of their ancillary
   service offers may be enabled and with which trapezium (FCAS Model in NEMDE,
   sections 4 and 5), and how fast start units advance in five minutes.

   MW are counted in quarters. A value that may be absent is a sequence of length 0 or 1.
   Results are compared as rationals << n, d >>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Abs(x) == IF x < 0 THEN -x ELSE x
Absent(o) == Len(o) = 0
The(o) == o[1]
Map(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]

(* ---- rationals with small positive denominators ---- *)
W(n) == << n, 1 >>
RAdd(a, b) == IF a[2] = b[2] THEN << a[1] + b[1], a[2] >> ELSE << a[1] * b[2] + b[1] * a[2], a[2] * b[2] >>
RSub(a, b) == RAdd(a, << -b[1], b[2] >>)
RLeq(a, b) == IF a[2] = b[2] THEN a[1] <= b[1] ELSE a[1] * b[2] <= b[1] * a[2]
RLt(a, b) == ~RLeq(b, a)

(* ---- names ---- *)
Service(ty) == CASE ty \in {"ENOF", "LDOF", "DROF", "BDOF"} -> "energy"
                 [] ty = "R5RE" -> "raise_reg" [] ty = "L5RE" -> "lower_reg"
                 [] ty = "R1SE" -> "raise_1s" [] ty = "L1SE" -> "lower_1s" [] ty = "R6SE" -> "raise_6s" [] ty = "L6SE" -> "lower_6s"
                 [] ty = "R60S" -> "raise_60s" [] ty = "L60S" -> "lower_60s" [] ty = "R5MI" -> "raise_5min" [] ty = "L5MI" -> "lower_5min"
Reg == {"raise_reg", "lower_reg"}
(* the direction of an offer: as said, otherwise that of the kind of unit *)
Side(u, b) == IF b.dir = "GEN" THEN "generator" ELSE IF b.dir = "LOAD" THEN "load" ELSE IF u.kind = "LOAD" THEN "load" ELSE "generator"
Bids(u) == Range(u.bids)
Fcas(u) == {b \in Bids(u) : Service(b.ty) # "energy"}
Energy(u) == {b \in Bids(u) : Service(b.ty) = "energy"}
Known(c) == {u \in Range(c.units) : ~Absent(u.det)}

(* ---- where units start, and their limits ---- *)
Init0(c, u) == IF c.intervention THEN u.whatif ELSE u.init
SemiSched(u) == ~Absent(u.uigf)
(* until 2023/07/07 13:40 the bid availability of semi scheduled units is not used *)
Scheduled(c, u) == c.late \/ ~SemiSched(u)
Capacity(c, u, side) == LET e == {b \in Energy(u) : Side(u, b) = side} IN
  IF e = {} \/ ~Scheduled(c, u) THEN << >> ELSE << (CHOOSE b \in e : TRUE).max >>

(* ---- trapezium scaling ---- *)
Trap(b) == [max |-> W(b.max), emin |-> W(b.emin), lo |-> W(b.lo), hi |-> W(b.hi), emax |-> W(b.emax)]
More(o, x, up) == ~Absent(o) /\ The(o) > 0 /\ (IF up THEN The(o) > x ELSE The(o) < x)
(* 4.1: telemetered enablement limits that are tighter replace the offered ones, the slopes stay *)
ByLimits(b, mn, mx) ==
  [b EXCEPT !.lo = IF More(mn, b.emin, TRUE) THEN b.lo + (The(mn) - b.emin) ELSE b.lo,
            !.emin = IF More(mn, b.emin, TRUE) THEN The(mn) ELSE b.emin,
            !.hi = IF More(mx, b.emax, FALSE) THEN b.hi - (b.emax - The(mx)) ELSE b.hi,
            !.emax = IF More(mx, b.emax, FALSE) THEN The(mx) ELSE b.emax]
(* 4.2: what can be ramped in five minutes, rates in MW per hour *)
ByRamp(b, rate) ==
  LET t == Trap(b)
      ramp == << The(rate), 3 >>
  IN IF Absent(rate) \/ The(rate) = 0 \/ RLeq(t.max, ramp) THEN t
     ELSE [t EXCEPT !.max = ramp,
                    !.lo = RAdd(t.emin, << The(rate) * (b.lo - b.emin), 3 * b.max >>),
                    !.hi = RSub(t.emax, << The(rate) * (b.emax - b.hi), 3 * b.max >>)]
(* 4.3: the forecast of intermittent generation *)
ByForecast(t, uigf) ==
  IF Absent(uigf) \/ RLeq(t.emax, W(The(uigf))) THEN t
  ELSE [t EXCEPT !.hi = RSub(t.hi, RSub(t.emax, W(The(uigf)))), !.emax = W(The(uigf))]
Scaled(u, b) ==
  LET s == Service(b.ty)
      b1 == IF s = "raise_reg" THEN ByLimits(b, u.agcl.rmin, u.agcl.rmax) ELSE IF s = "lower_reg" THEN ByLimits(b, u.agcl.lmin, u.agcl.lmax) ELSE b
      t == IF s = "raise_reg" THEN ByRamp(b1, u.up) ELSE IF s = "lower_reg" THEN ByRamp(b1, u.dn) ELSE Trap(b1)
  IN ByForecast(t, u.uigf)

(* ---- which offers may be enabled (section 5) ---- *)
Within(cap, x) == Absent(cap) \/ RLeq(x, W(The(cap)))
Offers(c, u, b) == LET t == Scaled(u, b) IN RLt(W(0), t.max) /\ (\E i \in 1..Len(b.vol) : b.vol[i] > 0) /\ Within(Capacity(c, u, Side(u, b)), t.emin)
\* the span in which a storage can regulate is that of both its sides
Pair(c, u, b, side) == {x \in Fcas(u) : Service(x.ty) = Service(b.ty) /\ Side(u, x) = side /\ Offers(c, u, x)}
SpanMin(c, u, b) == LET p == Pair(c, u, b, "load") IN IF p = {} THEN Scaled(u, b).emin ELSE Scaled(u, CHOOSE x \in p : TRUE).emin
SpanMax(c, u, b) == LET p == Pair(c, u, b, "generator") IN IF p = {} THEN Scaled(u, b).emax ELSE Scaled(u, CHOOSE x \in p : TRUE).emax
Between(x, a, b) == RLeq(a, W(x)) /\ RLeq(W(x), b)
Enabled(c, u, b) ==
  LET t == Scaled(u, b)
      s == Service(b.ty)
      i == Init0(c, u)
      side == Side(u, b)
      capL == Capacity(c, u, "load")
      above == Absent(capL) \/ RLeq(W(-The(capL)), t.emax)
  IN /\ Offers(c, u, b)
     /\ s \in Reg => u.agc # 0
     /\ IF u.kind # "BIDIRECTIONAL" THEN RLeq(W(0), t.emax) /\ Between(IF i < 0 THEN 0 ELSE i, t.emin, t.emax)
        ELSE IF s \in Reg THEN
          IF side = "generator" THEN RLeq(W(0), t.emax) /\ Between(i, SpanMin(c, u, b), t.emax)
          ELSE RLeq(t.emin, W(0)) /\ above /\ Between(i, t.emin, SpanMax(c, u, b))
        ELSE IF side = "generator" THEN RLeq(W(0), t.emax) /\ above /\ Between(i, t.emin, t.emax)
        ELSE RLeq(t.emin, W(0)) /\ Between(i, t.emin, t.emax)
\* an enablement maximum of zero: documentation and implementation differ, nothing is claimed
Open(u, b) == u.kind # "BIDIRECTIONAL" /\ Scaled(u, b).emax[1] = 0

(* ---- loss factors, in sixteenths ---- *)
LossFactor(u, side) == LET d == The(u.det) IN
  IF u.kind = "BIDIRECTIONAL" /\ side = "generator" /\ ~Absent(d.stlf) THEN The(d.stlf) * d.dlf ELSE d.tlf * d.dlf
Sides(u) == {Side(u, b) : b \in Bids(u)}

(* ---- fast start: mode and minutes after five more minutes ---- *)
Now(c, f) == [mode |-> IF Absent(f.wmode) THEN f.mode ELSE The(f.wmode), t |-> IF Absent(f.wtime) THEN f.t ELSE The(f.wtime)]
\* m: mode, t: minutes in it, left: minutes still to pass, two: minutes since mode two ended (if it did)
Begin(n, on) == [m |-> IF n.mode = 0 /\ on THEN 1 ELSE n.mode, t |-> n.t, left |-> 5, two |-> << >>]
Turn(x, from, len) == IF x.m = from /\ len - x.t < x.left
  THEN [m |-> from + 1, t |-> 0, left |-> x.left - (len - x.t), two |-> IF from = 2 THEN << x.left - (len - x.t) >> ELSE x.two]
  ELSE x
Advance(c, f, on) ==
  LET x == Turn(Turn(Turn(Begin(Now(c, f), on), 1, f.t1), 2, f.t2), 3, f.t3)
      t == x.t + x.left
  IN [mode |-> x.m, t |-> IF x.m = 0 THEN 0 ELSE IF x.m = 4 /\ t > f.t4 THEN f.t4 ELSE t, two |-> x.two]
=============================================================================
