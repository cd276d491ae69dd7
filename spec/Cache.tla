-------------------------------- MODULE Cache --------------------------------
(* The cache of NEMDE case files: which file belongs to which dispatch interval,
   when it is fetched, and what is then loaded.

   A dispatch interval is [day, min]: days since 1970/01/01 and minutes after
   midnight. A market day starts with the interval of 04:05 and has 288 intervals.
   A file is [day, no, ocd]: market day, number in it, whether the case is the rerun
   of an over constrained dispatch.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

(* the Gregorian calendar *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
DayOf(y, m, d) ==
  LET Before(n) == (n - 1) \div 4 - (n - 1) \div 100 + (n - 1) \div 400
      months == FoldLeft(LAMBDA a, k : a + MonthLen(y, k), 0, [k \in 1..(m - 1) |-> k])
  IN 365 * (y - 1970) + Before(y) - Before(1970) + months + d - 1
YearOf(n) == CHOOSE y \in 1970..2100 : DayOf(y, 1, 1) <= n /\ n < DayOf(y + 1, 1, 1)
DateOf(n) == LET y == YearOf(n)
                 m == CHOOSE m \in 1..12 : DayOf(y, m, 1) <= n /\ (m = 12 \/ n < DayOf(y, m + 1, 1))
             IN << y, m, n - DayOf(y, m, 1) + 1 >>

(* names *)
Pad(n, w) == LET s == ToString(n) IN IF w = 2 THEN (IF n < 10 THEN "0" \o s ELSE s)
                                     ELSE IF n < 10 THEN "00" \o s ELSE IF n < 100 THEN "0" \o s ELSE s
Stamp(n) == LET d == DateOf(n) IN ToString(d[1]) \o Pad(d[2], 2) \o Pad(d[3], 2)
FileName(f) == "NEMSPDOutputs_" \o Stamp(f.day) \o Pad(f.no, 3) \o "00" \o (IF f.ocd THEN "_OCD" ELSE "") \o ".loaded"
Address(n) == LET d == DateOf(n) y == ToString(d[1]) m == Pad(d[2], 2)
              IN "https://www.nemweb.com.au/Data_Archive/Wholesale_Electricity/NEMDE/" \o y \o "/NEMDE_" \o y \o "_" \o m
                 \o "/NEMDE_Market_Data/NEMDE_Files/NemSpdOutputs_" \o Stamp(n) \o "_loaded.zip"
Text(t) == LET d == DateOf(t.day) IN ToString(d[1]) \o "/" \o Pad(d[2], 2) \o "/" \o Pad(d[3], 2) \o " "
              \o Pad(t.min \div 60, 2) \o ":" \o Pad(t.min % 60, 2) \o ":00"

(* which case belongs to an interval *)
MarketDay(t) == IF t.min < 245 THEN t.day - 1 ELSE t.day
Number(t) == (IF t.min < 245 THEN t.min + 1440 - 245 ELSE t.min - 245) \div 5 + 1
FileOf(t, o) == [day |-> MarketDay(t), no |-> Number(t), ocd |-> o]
Has(cache, t) == FileOf(t, FALSE) \in cache \/ FileOf(t, TRUE) \in cache
Chosen(cache, t) == IF FileOf(t, FALSE) \in cache THEN FileOf(t, FALSE) ELSE FileOf(t, TRUE)

(* the archive: for a market day, the files of its parcel and how often the parcel first arrives broken *)
None == [files |-> {}, bad |-> 0]
Parcel(arch, d) == IF d \in DOMAIN arch THEN arch[d] ELSE [files |-> {}, bad |-> 99]
(* a broken parcel is asked for once more *)
Asked(arch, d) == IF Parcel(arch, d).bad = 0 THEN 1 ELSE 2
Got(arch, d) == IF Parcel(arch, d).bad <= 1 THEN Parcel(arch, d).files ELSE {}
\* a parcel that arrived broken is whole the next time
Used(arch, d) == IF d \in DOMAIN arch THEN [arch EXCEPT ![d].bad = IF @ > 2 THEN @ ELSE 0] ELSE arch

(* the manager: [cache, arch, at (the interval), loaded (a file)] *)
Nothing == [day |-> -1, no |-> 0, ocd |-> FALSE]
Load(s, t) ==
  IF Has(s.cache, t) THEN [s EXCEPT !.at = t, !.loaded = Chosen(s.cache, t), !.asked = << >>, !.err = "none"]
  ELSE LET d == MarketDay(t)
           c == s.cache \cup Got(s.arch, d)
       IN [s EXCEPT !.at = t, !.cache = c, !.arch = Used(s.arch, d),
                    !.loaded = IF Has(c, t) THEN Chosen(c, t) ELSE s.loaded,
                    !.asked = [i \in 1..Asked(s.arch, d) |-> Address(d)],
                    !.err = IF Has(c, t) THEN "none" ELSE "MissingDataError"]
Midnight(d) == [day |-> d, min |-> 0]

(* populating: afterwards every case of the days asked for is there (the first and last
   day included), or it is said that data are missing *)
Months(y1, m1, y2, m2) == << DayOf(y1, m1, 1), IF m2 = 12 THEN DayOf(y2, 12, 31) ELSE DayOf(y2, m2 + 1, 1) - 1 >>
Lacks(s, d) == ~Has(s.cache \cup Got(s.arch, MarketDay(Midnight(d))), Midnight(d))
\* days: first and last; the days of the market that overlap them, each ending with a midnight in first..last+1
MustRaise(s, a, b) == \E d \in a..(b + 1) : Lacks(s, d)
MayRaise(s, a, b) == \E d \in (a - 1)..(b + 1) : Lacks(s, d)
MustHave(s, a, b) == UNION {IF Has(s.cache, Midnight(d)) THEN {} ELSE Got(s.arch, d - 1) : d \in a..(b + 1)}
MayHave(s, a, b) == UNION {Got(s.arch, d - 1) : d \in (a - 1)..(b + 1)}

(* looking for violated intervals, in order of time; viol gives the violated kinds of a file *)
FiveMin(a, b) == [i \in 1..((b - a + 1) * 288 + 1) |-> [day |-> a + (i - 1) \div 288, min |-> ((i - 1) % 288) * 5]]
Holds(s, t) == Has(s.cache \cup Got(s.arch, MarketDay(t)), t)
FileThere(s, t) == Chosen(s.cache \cup (IF Has(s.cache, t) THEN {} ELSE Got(s.arch, MarketDay(t))), t)
=============================================================================
