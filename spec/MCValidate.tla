----------------------------- MODULE MCValidate -----------------------------
(* Enumerates, for every table of every call, the sound table and every single
   alteration of it, checks the rules themselves on them, and writes them out. *)
EXTENDS Validate, Json, IOUtils

s(z) == [t |-> "s", s |-> z, x |-> 0]
f(z) == [t |-> "f", s |-> "", x |-> z]
i_(z) == [t |-> "i", s |-> "", x |-> z]
fn(z) == [t |-> "fn", s |-> "", x |-> z]
odd(t) == [t |-> t, s |-> "", x |-> 0]
S(n, zs) == [n |-> n, c |-> [k \in 1..Len(zs) |-> s(zs[k])]]
F(n, zs) == [n |-> n, c |-> [k \in 1..Len(zs) |-> f(100 * zs[k])]]
G(n, zs) == [n |-> n, c |-> [k \in 1..Len(zs) |-> f(zs[k])]]
I(n, zs) == [n |-> n, c |-> [k \in 1..Len(zs) |-> i_(zs[k])]]

(* the tables in force; q = 1 as first given, q = 2 the other sound version of each *)
Base(v, c, q) ==
  LET plain == v = "plain"
      g == "generator"
      D(zs) == IF plain THEN << >> ELSE << S("dispatch_type", zs) >>
      H(z) == IF q = 1 THEN z ELSE z \div 2
  IN
  CASE c = "unit_info" /\ plain -> << S("unit", <<"A", "B", "C">>), S("region", <<"N", "S", "N">>), G("loss_factor", << 100, 90, 110 >>) >>
    [] c = "unit_info" /\ ~plain -> << S("unit", <<"A", "B", "C", "L", "D", "D">>), S("region", <<"N", "S", "N", "N", "S", "S">>),
          S("dispatch_type", <<g, g, g, "load", g, "load">>), G("loss_factor", << 100, 90, 110, 100, 100, 100 >>) >>
    [] c = "volume" /\ plain -> << S("unit", <<"A", "B", "C", "A", "B">>), S("service", <<"energy", "energy", "energy", "raise_6s", "raise_reg">>),
          F("1", << H(100), H(80), H(50), H(20), H(20) >>), F("2", << H(40), H(60), H(10), 0, 0 >>) >>
    [] c = "volume" /\ ~plain -> << S("unit", <<"A", "B", "C", "L", "D", "D", "A", "B">>),
          S("service", <<"energy", "energy", "energy", "energy", "energy", "energy", "raise_6s", "raise_reg">>),
          S("dispatch_type", <<g, g, g, "load", g, "load", g, g>>),
          F("1", << H(100), H(80), H(50), H(30), H(20), H(20), H(20), H(20) >>), F("2", << H(40), H(60), H(10), H(10), H(10), 0, 0, 0 >>) >>
    [] c = "price" /\ plain -> << S("unit", <<"A", "B", "C", "A", "B">>), S("service", <<"energy", "energy", "energy", "raise_6s", "raise_reg">>),
          F("1", << H(20), H(30), H(-10), H(2), H(4) >>), F("2", << H(50), H(70), H(90), H(8), H(8) >>) >>
    [] c = "price" /\ ~plain -> << S("unit", <<"A", "B", "C", "L", "D", "D", "A", "B">>),
          S("service", <<"energy", "energy", "energy", "energy", "energy", "energy", "raise_6s", "raise_reg">>),
          S("dispatch_type", <<g, g, g, "load", g, "load", g, g>>),
          F("1", << H(20), H(30), H(-10), H(60), H(80), H(-20), H(2), H(4) >>), F("2", << H(50), H(70), H(90), H(100), H(120), H(-12), H(8), H(8) >>) >>
    [] c = "capacity" -> << S("unit", <<"A", "C">>) >> \o D(<<g, g>>) \o << F("capacity", << H(90), H(44) >>) >>
    [] c = "uigf" -> << S("unit", <<"B", "C">>), F("capacity", << H(130), H(46) >>) >>
    [] c = "ramp" /\ plain -> << S("unit", <<"A", "B">>), F("initial_output", << H(60), H(50) >>), F("ramp_up_rate", << H(300), H(600) >>), F("ramp_down_rate", << H(480), H(240) >>) >>
    [] c = "ramp" /\ ~plain -> << S("unit", <<"A", "B", "D", "D">>), S("dispatch_type", <<g, g, g, "load">>), F("initial_output", << H(60), H(50), H(4), H(4) >>),
          F("ramp_up_rate", << H(300), H(600), H(120), H(120) >>), F("ramp_down_rate", << H(480), H(240), H(60), H(60) >>) >>
    [] c = "scada" -> << S("unit", <<"A", "B">>), F("scada_ramp_up_rate", << H(280), H(700) >>), F("scada_ramp_down_rate", << H(480), H(200) >>) >>
    [] c = "fs_first" -> << S("unit", <<"A", "C">>), I("current_mode", << 0, q + 1 >>) >>
    [] c = "fs_second" -> << S("unit", <<"A", "C">>), I("end_mode", << 4, q + 1 >>), F("min_loading", << H(20), H(10) >>), F("time_since_end_of_mode_two", << 2, 0 >>) >>
    [] c = "fast_start" -> << S("unit", <<"A", "C">>), I("end_mode", << 4, q + 1 >>), F("time_in_end_mode", << 1, 2 >>), F("mode_two_length", << 4, 4 >>),
          F("mode_four_length", << 4, 5 >>), F("min_loading", << H(12), H(8) >>) >>
    [] c = "demand" -> << S("region", <<"N", "S">>), F("demand", << H(70), H(60) >>) >>
    [] c = "fcas" -> << S("set", <<"r6", "r6", "rr">>), S("region", <<"N", "S", "S">>), S("service", <<"raise_6s", "raise_6s", "raise_reg">>),
          F("volume", << H(12), H(12), H(8) >>), S("type", << ">=", ">=", ">=" >>) >>
    [] c = "maxav" -> << S("unit", <<"A", "B">>), S("service", <<"raise_6s", "raise_reg">>) >> \o D(<<g, g>>) \o << F("max_availability", << H(16), H(10) >>) >>
    [] c = "jramp" -> << S("unit", <<"B", "C">>), F("initial_output", << H(50), H(40) >>), F("scada_ramp_up_rate", << H(360), H(600) >>), F("scada_ramp_down_rate", << H(240), H(600) >>) >>
    [] c = "jcap" -> << S("unit", <<"A", "A">>), S("service", <<"raise_6s", "lower_6s">>) >> \o D(<<g, g>>) \o << F("max_availability", << H(20), H(10) >>),
          F("enablement_min", << H(10), H(10) >>), F("low_break_point", << H(20), H(20) >>), F("high_break_point", << H(80), H(80) >>), F("enablement_max", << H(96), H(98) >>) >>
    [] c = "ereg" -> << S("unit", <<"B", "B">>), S("service", <<"raise_reg", "lower_reg">>) >> \o D(<<g, g>>) \o << F("max_availability", << H(20), H(10) >>),
          F("enablement_min", << H(10), H(10) >>), F("low_break_point", << H(20), H(20) >>), F("high_break_point", << H(60), H(80) >>), F("enablement_max", << H(76), H(98) >>) >>
    [] c = "inter" -> << S("interconnector", <<"I", "J">>), S("link", <<"I", "J">>), S("to_region", <<"S", "N">>), S("from_region", <<"N", "S">>),
          F("max", << H(60), H(10) >>), F("min", << H(-60), H(-10) >>), I("generic_constraint_factor", << 1, -1 >>),
          G("from_region_loss_factor", << 100, 95 >>), G("to_region_loss_factor", << 100, 100 >>) >>
    [] c = "losses" -> << S("interconnector", <<"I", "J">>), S("link", <<"I", "J">>), [n |-> "loss_function", c |-> << fn(H(40)), fn(H(20)) >>],
          G("from_region_loss_share", << H(50), H(80) >>) >>
    [] c = "breaks" -> << S("interconnector", <<"I", "I", "I", "J", "J">>), S("link", <<"I", "I", "I", "J", "J">>), I("loss_segment", << 1, 2, 3, 1, 2 >>),
          F("break_point", << -60, 0, 60, -10, 10 >>) >>
    [] c = "generic" -> << S("set", <<"g1", "g2">>), S("type", << "<=", ">=" >>), F("rhs", << H(56), H(-40) >>) >>
    [] c = "gunits" -> << S("set", <<"g1", "g2">>), S("unit", <<"A", "B">>), S("service", <<"energy", "energy">>), F("coefficient", << q, -q >>) >>
    [] c = "gregions" -> << S("set", <<"g2", "g2">>), S("region", <<"N", "S">>), S("service", <<"raise_6s", "raise_6s">>), F("coefficient", << q, -q >>) >>
    [] c = "ginter" -> << S("set", <<"g1", "g2">>), S("interconnector", <<"I", "J">>), F("coefficient", << -q, 2 * q >>) >>
    [] c = "elastic" -> << S("set", <<"g1", "g2">>), F("cost", << H(900), H(1200) >>) >>

(* ---- single alterations of a sound table ---- *)
Drop(tab, j) == SubSeq(tab, 1, j - 1) \o SubSeq(tab, j + 1, Len(tab))
Put(tab, j, k, z) == [tab EXCEPT ![j].c[k] = z]
AllCells(tab, j, Op(_)) == [tab EXCEPT ![j].c = [k \in 1..Len(tab[j].c) |-> Op(tab[j].c[k])]]
RowCopy(tab, k) == [j \in 1..Len(tab) |-> [tab[j] EXCEPT !.c = Append(@, tab[j].c[k])]]
RowCut(tab, k) == [j \in 1..Len(tab) |-> [tab[j] EXCEPT !.c = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))]]
Turn(zs) == [k \in 1..Len(zs) |-> zs[Len(zs) + 1 - k]]
TurnRows(tab) == [j \in 1..Len(tab) |-> [tab[j] EXCEPT !.c = Turn(@)]]
AsFloat(z) == f(100 * z.x)
AsInt(z) == i_(z.x \div 100)
Other(kind) ==
  CASE kind = "s" -> {s("ZZZ"), odd("none"), f(100), i_(1)}
    [] kind = "f" -> {odd("inf"), odd("ninf"), odd("nan"), f(-500), s("5"), odd("none"), f(0), f(130)}
    [] kind = "i" -> {i_(-1), i_(7), s("1"), odd("nan")}
    [] kind = "fn" -> {s("f"), f(100)}
Altered(tab) ==
     {tab, Turn(tab), TurnRows(tab)}
  \cup {Drop(tab, j) : j \in 1..Len(tab)}
  \cup {Append(tab, [n |-> "extra", c |-> tab[Len(tab)].c]), Append(tab, [n |-> "11", c |-> tab[Len(tab)].c])}
  \cup {RowCopy(tab, k) : k \in 1..NRows(tab)}
  \cup (IF NRows(tab) > 1 THEN {RowCut(tab, k) : k \in 1..NRows(tab)} ELSE {})
  \cup UNION {{Put(tab, j, k, z) : k \in 1..NRows(tab), z \in Other(tab[j].c[1].t)} : j \in 1..Len(tab)}
  \cup {AllCells(tab, j, AsInt) : j \in {x \in 1..Len(tab) : tab[x].c[1].t = "f"}}
  \cup {AllCells(tab, j, AsFloat) : j \in {x \in 1..Len(tab) : tab[x].c[1].t = "i"}}
  \* a repeated row whose other values differ from the row it repeats
  \cup UNION {{Put(RowCopy(tab, k), j, NRows(tab) + 1, f(3100)) : k \in 1..NRows(tab)} : j \in {x \in 1..Len(tab) : tab[x].c[1].t = "f"}}
\* another bid band, dearer or cheaper than the one before it
MoreBands(tab) ==
  {Append(tab, [n |-> b, c |-> [k \in 1..NRows(tab) |-> f(100 * p)]]) : b \in {"3", "10"}, p \in {200, -40, 0}}
Cases(v, c) == LET tab == Base(v, c, 2) IN Altered(tab) \cup (IF c \in {"price", "volume"} THEN MoreBands(tab) ELSE {})

Variants == {"plain", "sides"}
VARIABLES v, c, tab
vars == << v, c, tab >>
Init == v \in Variants /\ c \in Tables /\ tab \in Cases(v, c)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* ---- the rules hang together ---- *)
\* the tables in force are sound; no order of rows or columns makes a sound table unsound
BaseSound == Fault(v, c, Base(v, c, 1)) = {} /\ Fault(v, c, Base(v, c, 2)) = {} /\ ~Unsettled(v, c, Base(v, c, 1))
OrderFree == Fault(v, c, tab) = Fault(v, c, Turn(tab)) /\ Fault(v, c, tab) = Fault(v, c, TurnRows(tab))
\* leaving out a row of a table with no repeated row never makes it repeat one
CutSound == NRows(tab) > 1 => \A k \in 1..NRows(tab) : "RepeatedRowError" \in Fault(v, c, RowCut(tab, k)) => "RepeatedRowError" \in Fault(v, c, tab)
\* every rule is exercised by some alteration of some table
ASSUME \A e \in {"UnexpectedColumn", "MissingColumnError", "ColumnDataTypeError", "ColumnValues", "RepeatedRowError", "BidsNotMonotonicIncreasing", "ModelBuildError"} :
         \E vv \in Variants, cc \in {"price", "volume"} : \E tt \in Cases(vv, cc) : e \in Fault(vv, cc, tt)
Names(vv) == SetToSeq(Tables)
ASSUME IF "VP_OUT" \in DOMAIN IOEnv
       THEN JsonSerialize(IOEnv.VP_OUT, [base |-> [vv \in Variants |-> [cc \in Tables |-> Base(vv, cc, 1)]], alt |-> [vv \in Variants |-> [cc \in Tables |-> Base(vv, cc, 2)]], order |-> SetToSeq(DOMAIN Order),
                                         cases |-> [vv \in Variants |-> [cc \in Tables |-> SetToSeq(Cases(vv, cc))]]])
       ELSE TRUE
=============================================================================
