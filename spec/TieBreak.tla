------------------------------ MODULE TieBreak ------------------------------
(* What a market of independent regions dispatches when ties are broken.

   A case: c.units = <<[u, r, dt, lf, b: volumes, p: prices]>>, c.dem = <<[r, d]>>.
   Volumes in MW, demand in MW, prices in $/MWh at the unit; lf in 1/100.
   Bands are ranked by price at the regional node; bands cheaper than the
   marginal price are used in full, dearer ones not at all, and the bands at
   the marginal price of one region and one side share the remainder in
   proportion to their volumes.  A load band is used in full while the price is
   below its value, i.e. it is a source of reduction at that price. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Sm(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Node(x, j) == (x.p[j] * 100) \div x.lf                       \* exact for the cases used

Items(c, r) == \* bands of a region as sources: generation, or reduction of load
  FlattenSeq([i \in 1..Len(c.units) |->
     IF c.units[i].r # r THEN << >>
     ELSE [j \in 1..Len(c.units[i].b) |-> [i |-> i, j |-> j, dt |-> c.units[i].dt, v |-> c.units[i].b[j], p |-> Node(c.units[i], j)]]])
Loads(c, r) == SelectSeq(Items(c, r), LAMBDA x : x.dt = "load")
Need(c, r) == SelectSeq(c.dem, LAMBDA d : d.r = r)[1].d + Sm([k \in 1..Len(Loads(c, r)) |-> Loads(c, r)[k].v])
SumV(s) == Sm([k \in 1..Len(s) |-> s[k].v])

Cheaper(c, r, p) == SelectSeq(Items(c, r), LAMBDA x : x.p < p)
At(c, r, p) == SelectSeq(Items(c, r), LAMBDA x : x.p = p)
Prices(c, r) == {Items(c, r)[k].p : k \in 1..Len(Items(c, r))}
Feasible(c, r) == Need(c, r) >= 0 /\ Need(c, r) <= SumV(Items(c, r))
\* the marginal price: the cheapest whose bands complete the need
Marginal(c, r) == CHOOSE p \in Prices(c, r) :
   /\ SumV(Cheaper(c, r, p)) + SumV(At(c, r, p)) >= Need(c, r)
   /\ \A q \in Prices(c, r) : q < p => SumV(Cheaper(c, r, q)) + SumV(At(c, r, q)) < Need(c, r)

\* both sides at the marginal price: how the remainder falls between them is open
Mixed(c, r) == LET a == At(c, r, Marginal(c, r)) IN
   (\E k \in 1..Len(a) : a[k].dt = "load") /\ (\E k \in 1..Len(a) : a[k].dt = "generator")

\* use of band (i, j) in thousandths of a MW, nearest
Use(c, i, j) ==
  LET x == c.units[i]  r == x.r  p == Marginal(c, r)  n == Node(x, j)
      left == Need(c, r) - SumV(Cheaper(c, r, p))
      src == IF n < p THEN x.b[j] * 1000
             ELSE IF n > p \/ SumV(At(c, r, p)) = 0 THEN 0
             ELSE (1000 * left * x.b[j]) \div SumV(At(c, r, p))
  IN IF x.dt = "generator" THEN src ELSE x.b[j] * 1000 - src
Want(c, i) == Sm([j \in 1..Len(c.units[i].b) |-> Use(c, i, j)])

(* clauses on a reported dispatch q[i] in thousandths of a MW *)
Near(a, b) == a - b <= 30 /\ b - a <= 30
RegionsOf(c) == {c.dem[k].r : k \in 1..Len(c.dem)}
TieOf(c, r) == SelectSeq([i \in 1..Len(c.units) |-> i], LAMBDA i : c.units[i].r = r)
Fails(c, q) ==
  FlattenSeq([i \in 1..Len(c.units) |->
     IF Mixed(c, c.units[i].r) \/ Near(q[i], Want(c, i)) THEN << >>
     ELSE << [cl |-> "tie-share", wh |-> c.units[i].u, got |-> q[i], want |-> Want(c, i)] >>])
=============================================================================
