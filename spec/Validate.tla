------------------------------ MODULE Validate ------------------------------
(* What the market accepts: the documented column rules of every table a caller
   hands over, the calls that are out of order, and what is in force afterwards.

   A table is << [n |-> column, c |-> cells] >>, every column with as many cells as
   the table has rows.  A cell is [t, s, x]: t = "s" text s, "f" float x/100,
   "i" integer x, "inf", "ninf", "nan", "none" or "fn" (a function of slope x/1000).

   Fault(v, c, tab) is the set of documented errors that apply to table tab given to
   call c in a market of variant v.  Nothing is assumed about which is raised first. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

(* ---- the market the tables are given to ---- *)
Regions == {"N", "S"}
Units(v) == IF v = "plain" THEN {"A", "B", "C"} ELSE {"A", "B", "C", "L", "D"}
Bidirectional(v) == IF v = "plain" THEN {} ELSE {"D"}
Interconnectors == {"I", "J"}
Contingency == {"raise_5min", "lower_5min", "raise_60s", "lower_60s", "raise_6s", "lower_6s", "raise_1s", "lower_1s"}
Regulation == {"raise_reg", "lower_reg"}
Services == {"energy"} \cup Contingency \cup Regulation
Bands == << "1", "2", "3", "4", "5", "6", "7", "8", "9", "10" >>

(* ---- column rules ----
   k kind; req required; vals allowed texts ({} = any); ints allowed integers ({} = any)
   real: inf and null refused ("no") or not covered ("free"); neg: negative refused, fine or not covered *)
Col(n, k, req) == [n |-> n, k |-> k, req |-> req, vals |-> {}, ints |-> {}, real |-> "no", neg |-> "ok", max |-> 2000000000]
Txt(n, req, vs) == [Col(n, "str", req) EXCEPT !.vals = vs]
Num(n, req, real, neg) == [Col(n, "f64", req) EXCEPT !.real = real, !.neg = neg]
Whole(n, req, neg) == [Col(n, "i64", req) EXCEPT !.neg = neg]
Side(v) == IF v = "plain" THEN << >> ELSE << Txt("dispatch_type", TRUE, {"generator", "load"}) >>
OptSide == << Txt("dispatch_type", FALSE, {"generator", "load"}) >>
U(v) == << Txt("unit", TRUE, Units(v)) >>
Trap == << Num("max_availability", TRUE, "no", "no"), Num("enablement_min", TRUE, "no", "free"), Num("low_break_point", TRUE, "no", "free"),
           Num("high_break_point", TRUE, "no", "free"), Num("enablement_max", TRUE, "no", "free") >>

Cols(v, c) ==
  CASE c = "unit_info" -> << Txt("unit", TRUE, {}), Txt("region", TRUE, Regions), Num("loss_factor", FALSE, "no", "no"),
                             Txt("dispatch_type", FALSE, {"generator", "load"}) >>
    [] c = "volume" -> U(v) \o Side(v) \o << Txt("service", FALSE, Services) >> \o [i \in 1..10 |-> Num(Bands[i], i = 1, "no", "no")]
    [] c = "price" -> U(v) \o Side(v) \o << Txt("service", FALSE, Services) >> \o [i \in 1..10 |-> Num(Bands[i], i = 1, "no", "ok")]
    [] c = "capacity" -> U(v) \o Side(v) \o << Num("capacity", TRUE, "no", "no") >>
    [] c = "uigf" -> U(v) \o << Num("capacity", TRUE, "no", "no") >>
    [] c = "ramp" -> U(v) \o Side(v) \o << Num("initial_output", TRUE, "no", "ok"), Num("ramp_up_rate", TRUE, "no", "free"), Num("ramp_down_rate", TRUE, "no", "free") >>
    [] c = "scada" -> U(v) \o << Num("scada_ramp_up_rate", FALSE, "free", "free"), Num("scada_ramp_down_rate", FALSE, "free", "free") >>
    [] c = "fs_first" -> U(v) \o << Whole("current_mode", TRUE, "no") >>
    [] c = "fs_second" -> U(v) \o << Whole("end_mode", TRUE, "no"), Num("min_loading", TRUE, "no", "no"), Num("time_since_end_of_mode_two", TRUE, "free", "no") >>
    [] c = "fast_start" -> U(v) \o << Whole("end_mode", TRUE, "no"), Num("time_in_end_mode", TRUE, "no", "no"), Num("mode_two_length", TRUE, "no", "no"),
                              Num("mode_four_length", TRUE, "no", "no"), Num("min_loading", TRUE, "no", "no") >>
    [] c = "demand" -> << Txt("region", TRUE, Regions), Num("demand", TRUE, "no", "free") >>
    [] c = "fcas" -> << Txt("set", TRUE, {}), Txt("region", TRUE, Regions), Txt("service", TRUE, Services), Num("volume", TRUE, "no", "free"),
                        Txt("type", FALSE, {"<=", "=", ">="}) >>
    [] c = "maxav" -> U(v) \o OptSide \o << Txt("service", TRUE, Contingency \cup Regulation), Num("max_availability", TRUE, "no", "no") >>
    [] c = "jramp" -> U(v) \o << Num("initial_output", TRUE, "free", "ok"), Num("scada_ramp_up_rate", TRUE, "free", "free"),
                         Num("scada_ramp_down_rate", TRUE, "free", "free") >>
    [] c = "jcap" -> U(v) \o OptSide \o << Txt("service", TRUE, Contingency) >> \o Trap
    [] c = "ereg" -> U(v) \o OptSide \o << Txt("service", TRUE, Regulation) >> \o Trap
    [] c = "inter" -> << Txt("interconnector", TRUE, {}), Txt("link", FALSE, {}), Txt("to_region", TRUE, Regions), Txt("from_region", TRUE, Regions),
                         Num("max", TRUE, "no", "ok"), Num("min", TRUE, "no", "ok"),
                         [Whole("generic_constraint_factor", FALSE, "ok") EXCEPT !.ints = {1, -1}],
                         Num("from_region_loss_factor", FALSE, "no", "no"), Num("to_region_loss_factor", FALSE, "no", "no") >>
    [] c = "losses" -> << Txt("interconnector", TRUE, {}), Txt("link", FALSE, {}), Col("loss_function", "fn", TRUE),
                          [Num("from_region_loss_share", TRUE, "no", "no") EXCEPT !.max = 100] >>
    [] c = "breaks" -> << Txt("interconnector", TRUE, {}), Txt("link", FALSE, {}), Whole("loss_segment", TRUE, "free"), Num("break_point", TRUE, "no", "ok") >>
    [] c = "generic" -> << Txt("set", TRUE, {}), Txt("type", TRUE, {}), Num("rhs", TRUE, "no", "ok") >>
    [] c = "gunits" -> << Txt("set", TRUE, {}), Txt("unit", TRUE, Units(v)), Txt("service", TRUE, Services), Num("coefficient", TRUE, "no", "ok") >>
    [] c = "gregions" -> << Txt("set", TRUE, {}), Txt("region", TRUE, Regions), Txt("service", TRUE, Services), Num("coefficient", TRUE, "no", "ok") >>
    [] c = "ginter" -> << Txt("set", TRUE, {}), Txt("interconnector", TRUE, {}), Num("coefficient", TRUE, "no", "ok") >>
    [] c = "elastic" -> << Txt("set", TRUE, {}), Num("cost", TRUE, "no", "free") >>

Key(c) ==
  CASE c \in {"unit_info", "capacity", "ramp"} -> {"unit", "dispatch_type"}
    [] c \in {"volume", "price", "maxav", "jcap", "ereg"} -> {"unit", "dispatch_type", "service"}
    [] c \in {"uigf", "scada", "fs_first", "fs_second", "fast_start", "jramp"} -> {"unit"}
    [] c = "demand" -> {"region"}
    [] c = "fcas" -> {"set", "region", "service"}
    [] c \in {"inter", "losses"} -> {"interconnector", "link"}
    [] c = "breaks" -> {"interconnector", "link", "loss_segment"}
    [] c \in {"generic", "elastic"} -> {"set"}
    [] c = "gunits" -> {"set", "unit", "service"}
    [] c = "gregions" -> {"set", "region", "service"}
    [] c = "ginter" -> {"set", "interconnector"}
\* tables that only make sense for interconnectors already in the market
NeedsInterconnector == {"losses", "breaks"}
NeedsBothSides == {"volume", "price", "ramp"}
Tables == {"unit_info", "volume", "price", "capacity", "uigf", "ramp", "scada", "fs_first", "fs_second", "fast_start", "demand", "fcas", "maxav", "jramp",
           "jcap", "ereg", "inter", "losses", "breaks", "generic", "gunits", "gregions", "ginter", "elastic"}

(* ---- tables ---- *)
Has(tab, n) == \E j \in 1..Len(tab) : tab[j].n = n
Cells(tab, n) == (CHOOSE j \in 1..Len(tab) : tab[j].n = n) 
Get(tab, n) == tab[Cells(tab, n)].c
NRows(tab) == IF Len(tab) = 0 THEN 0 ELSE Len(tab[1].c)
Rng(s) == {s[i] : i \in 1..Len(s)}

BadType(r, cells) ==
  CASE r.k = "str" -> \E z \in Rng(cells) : z.t # "s"
    [] r.k = "fn" -> \E z \in Rng(cells) : z.t # "fn"
    [] r.k = "f64" -> \E z \in Rng(cells) : z.t \notin {"f", "inf", "ninf", "nan"}
    [] r.k = "i64" -> \E z \in Rng(cells) : z.t # "i"
Real(z) == z.t \notin {"inf", "ninf", "nan", "none"}
Negative(z) == (z.t \in {"f", "i"} /\ z.x < 0) \/ z.t = "ninf"
BadValue(r, cells) == \E z \in Rng(cells) :
  \/ r.k = "str" /\ r.vals # {} /\ (z.t # "s" \/ z.s \notin r.vals)
  \/ r.k = "i64" /\ r.ints # {} /\ (z.t = "i" /\ z.x \notin r.ints)
  \/ r.k \in {"f64", "i64"} /\ r.real = "no" /\ ~Real(z)
  \/ r.k \in {"f64", "i64"} /\ r.neg = "no" /\ Negative(z)
  \/ r.k = "f64" /\ z.t = "f" /\ z.x > r.max
Open(r, cells) == \E z \in Rng(cells) :     \* the documentation does not settle it
  r.k \in {"f64", "i64"} /\ ((r.real = "free" /\ ~Real(z)) \/ (r.neg = "free" /\ Negative(z)))

Repeated(c, tab) ==
  LET cols == {n \in Key(c) : Has(tab, n)}
      row(i) == [n \in cols |-> Get(tab, n)[i]]
  IN cols # {} /\ \E i, j \in 1..NRows(tab) : i < j /\ row(i) = row(j)

Falling(tab) ==
  LET bs == SelectSeq(Bands, LAMBDA b : Has(tab, b))
  IN \E i \in 1..NRows(tab) : \E k \in 1..(Len(bs) - 1) :
       LET a == Get(tab, bs[k])[i]  b == Get(tab, bs[k + 1])[i] IN a.t = "f" /\ b.t = "f" /\ a.x > b.x
OneSided(v, tab) ==
  /\ Has(tab, "unit")
  /\ LET energy(i) == ~Has(tab, "service") \/ Get(tab, "service")[i].s = "energy"
         rows(u) == {i \in 1..NRows(tab) : Get(tab, "unit")[i].s = u /\ energy(i)}
     IN \E u \in Bidirectional(v) : Cardinality(rows(u)) = 1
Stranger(c, tab) == c \in NeedsInterconnector /\ Has(tab, "interconnector")
                    /\ \E z \in Rng(Get(tab, "interconnector")) : z.s \notin Interconnectors

Rule(v, c, n) == LET cs == Cols(v, c) IN cs[CHOOSE k \in 1..Len(cs) : cs[k].n = n]
Known(v, c, n) == \E r \in Rng(Cols(v, c)) : r.n = n
Fault(v, c, tab) ==
     (IF \E j \in 1..Len(tab) : ~Known(v, c, tab[j].n) THEN {"UnexpectedColumn"} ELSE {})
  \cup (IF \E r \in Rng(Cols(v, c)) : r.req /\ ~Has(tab, r.n) THEN {"MissingColumnError"} ELSE {})
  \cup (IF \E j \in 1..Len(tab) : Known(v, c, tab[j].n) /\ BadType(Rule(v, c, tab[j].n), tab[j].c) THEN {"ColumnDataTypeError"} ELSE {})
  \cup (IF \E j \in 1..Len(tab) : Known(v, c, tab[j].n) /\ BadValue(Rule(v, c, tab[j].n), tab[j].c) THEN {"ColumnValues"} ELSE {})
  \cup (IF Repeated(c, tab) THEN {"RepeatedRowError"} ELSE {})
  \cup (IF c = "price" /\ Falling(tab) THEN {"BidsNotMonotonicIncreasing"} ELSE {})
  \cup (IF c \in NeedsBothSides /\ OneSided(v, tab) THEN {"ModelBuildError"} ELSE {})
  \cup (IF Stranger(c, tab) THEN {"ModelBuildError"} ELSE {})
\* losses of links that the interconnector does not have: nothing is said
NoSuchLink(c, tab) == c \in NeedsInterconnector /\ Has(tab, "link") /\ Has(tab, "interconnector")
                      /\ \E i \in 1..NRows(tab) : Get(tab, "link")[i].s # Get(tab, "interconnector")[i].s
Unsettled(v, c, tab) == NoSuchLink(c, tab) \/ \E j \in 1..Len(tab) : Known(v, c, tab[j].n) /\ Open(Rule(v, c, tab[j].n), tab[j].c)

(* ---- calls out of order, and arguments that are not tables ---- *)
Order == [ price_before_volume |-> "ModelBuildError", capacity_before_volume |-> "ModelBuildError", uigf_before_volume |-> "ModelBuildError",
           losses_before_interconnectors |-> "ModelBuildError", elastic_unknown_group |-> "ModelBuildError", elastic_text_cost |-> "ValueError",
           elastic_list_cost |-> "ValueError", elastic_costs_by_set_without_sets |-> "MissingColumnError", dispatch_without_variables |-> "ModelBuildError",
           rerun_without_ceiling |-> "ValueError", rerun_without_floor |-> "ValueError", rerun_without_fcas_ceiling |-> "ValueError" ]

(* ---- verdicts ---- *)
Fail(cl, wh, got, want) == [cl |-> cl, wh |-> wh, got |-> got, want |-> want]
TableVerdict(v, c, tab, err) ==
  LET f == Fault(v, c, tab) IN
  IF f = {} /\ Unsettled(v, c, tab) THEN << >>
  ELSE IF f = {} THEN (IF err = "none" THEN << >> ELSE << Fail("valid-table-refused", c, err, "accepted") >>)
  ELSE IF err = "none" THEN << Fail("invalid-table-accepted", c, err, ToString(f)) >>
  ELSE IF err \notin f THEN << Fail("wrong-error", c, err, ToString(f)) >> ELSE << >>
\* what is in force after a history of refused calls is what was in force before
SameOutcome(a, b) == a.st = b.st /\ Len(a.q) = Len(b.q) /\ \A i \in 1..Len(a.q) : a.q[i] - b.q[i] \in -3..3
=============================================================================
