------------------------------- MODULE Network -------------------------------
(* What the historical inputs make of the network of a case: demand, interconnectors
   and their losses, generic constraints, and the figures the case reports.

   MW and right hand sides are counted in quarters, loss factors, shares and coefficients in
   sixteenths, losses in 1024ths of a MW at whole MW of flow. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Abs(x) == IF x < 0 THEN -x ELSE x
Service(ty) == CASE ty \in {"ENOF", "LDOF", "DROF", "BDOF"} -> "energy"
                 [] ty = "R5RE" -> "raise_reg" [] ty = "L5RE" -> "lower_reg"
                 [] ty = "R1SE" -> "raise_1s" [] ty = "L1SE" -> "lower_1s" [] ty = "R6SE" -> "raise_6s" [] ty = "L6SE" -> "lower_6s"
                 [] ty = "R60S" -> "raise_60s" [] ty = "L60S" -> "lower_60s" [] ty = "R5MI" -> "raise_5min" [] ty = "L5MI" -> "lower_5min"
Sum(s, Op(_)) == FoldLeft(LAMBDA a, x : a + Op(x), 0, s)

(* ---- interconnectors ---- *)
\* those in service in the interval
InService(c) == {i \in Range(c.ics) : i.present}
Regulated(c) == {i \in InService(c) : i.type = "REGULATED"}
Market(c) == {i \in InService(c) : i.type = "MNSP"}
(* a regulated interconnector is one link both ways, a market interconnector one link each way *)
One(i) == [id |-> i.id, from |-> i.from, to |-> i.to, min |-> -i.imp, max |-> i.exp, ftlf |-> 16, ttlf |-> 16, f |-> 1]
Link(l) == [id |-> l.id, from |-> l.from, to |-> l.to, min |-> 0, max |-> l.avail, ftlf |-> l.ftlf, ttlf |-> l.ttlf, f |-> l.f]
Links(c, i) == IF i.type = "REGULATED" THEN {One(i)} ELSE {Link(i.links[j]) : j \in 1..Len(i.links)}
LinkKeys(c) == UNION {{<< i.id, l.id >> : l \in Links(c, i)} : i \in InService(c)}
Ic(c, id) == CHOOSE i \in Range(c.ics) : i.id = id
LinkOf(c, key) == CHOOSE l \in Links(c, Ic(c, key[1])) : l.id = key[2]

(* the data says nothing about who bears the losses of Basslink *)
Share(i) == IF i.id = "T-V-MNSP1" THEN 16 ELSE i.share
Demand(c, id) == LET r == {x \in Range(c.regions) : x.id = id} IN IF r = {} THEN 0 ELSE LET x == CHOOSE y \in r : TRUE IN x.supply + x.forecast
(* marginal loss factor = constant + demand terms + coefficient * flow; losses are its integral less the flow *)
Loss(c, i, flow) == (16 * i.k + Sum(i.dc, LAMBDA d : d.n * Demand(c, d.region)) - 1024) * flow + i.a * flow * flow
(* flow on a link against the interconnector is negative flow on the interconnector *)
LinkLoss(c, key, flow) == Loss(c, Ic(c, key[1]), LinkOf(c, key).f * flow)

(* ---- generic constraints ---- *)
Sense(t) == CASE t = "LE" -> "<=" [] t = "EQ" -> "=" [] t = "GE" -> ">="
Con(c, id) == CHOOSE k \in Range(c.cons) : k.id = id
Active(c) == {k \in Range(c.cons) : k.solved}
FcasSets(c) == {k \in Active(c) : k.region # << >>}
=============================================================================
