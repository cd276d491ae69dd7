------------------------------- MODULE MCCache -------------------------------
(* Every history of loads against a small archive; the histories are replayed in the real manager. *)
EXTENDS Cache, Json, IOUtils
CONSTANT MaxLen
VARIABLES h, w, s
D == 18262    \* 2020/01/01
F(d, n, o) == [day |-> d, no |-> n, ocd |-> o]
\* worlds: what the archive and the cache hold at the start
Worlds == << [arch |-> (D - 1 :> [files |-> {F(D - 1, 240, FALSE), F(D - 1, 288, FALSE)}, bad |-> 0])
                    @@ (D :> [files |-> {F(D, 1, FALSE), F(D, 1, TRUE), F(D, 2, TRUE)}, bad |-> 1]), cache |-> {}],
             [arch |-> (D :> [files |-> {F(D, 1, FALSE), F(D, 2, FALSE)}, bad |-> 0])
                    @@ (D - 1 :> [files |-> {F(D - 1, 288, TRUE)}, bad |-> 99]), cache |-> {F(D, 1, TRUE), F(D, 240, FALSE)}],
             [arch |-> (D - 1 :> [files |-> {F(D - 1, 287, FALSE)}, bad |-> 0]), cache |-> {F(D - 1, 288, TRUE), F(D - 1, 288, FALSE), F(D, 2, FALSE)}] >>
T(d, m) == [day |-> d, min |-> m]
Menu == << T(D, 0), T(D, 240), T(D, 235), T(D, 245), T(D, 250), T(D + 1, 0), T(D + 1, 240) >>
Init == /\ h = << >> /\ w \in 1..Len(Worlds)
        /\ s = [cache |-> Worlds[w].cache, arch |-> Worlds[w].arch, at |-> T(-1, 0), loaded |-> Nothing, asked |-> << >>, err |-> "none"]
Next == /\ Len(h) < MaxLen /\ \E k \in 1..Len(Menu) : h' = Append(h, k) /\ s' = Load(s, Menu[k]) /\ w' = w
Spec == Init /\ [][Next]_<<h, w, s>>

(* what is loaded is the case of the interval asked for *)
RightCase == s.at.day >= 0 /\ s.err = "none" => s.loaded \in s.cache /\ s.loaded.day = MarketDay(s.at) /\ s.loaded.no = Number(s.at)
(* the rerun only where there is no first run *)
FirstRun == s.at.day >= 0 /\ s.err = "none" /\ s.loaded.ocd => FileOf(s.at, FALSE) \notin s.cache
(* refused only when it is nowhere *)
Refusal == s.err # "none" => ~Has(s.cache, s.at) /\ ~Has(Got(s.arch, MarketDay(s.at)), s.at)
(* at most two requests, none for what is there *)
Requests == Len(s.asked) <= 2
Again == s.at.day >= 0 /\ s.err = "none" => Load(s, s.at).asked = << >>
Nums == \A m \in {0, 5, 235, 240, 245, 250, 1435} : Number(T(D, m)) \in 1..288
Grows == Worlds[w].cache \subseteq s.cache
\* a market day has each of its 288 numbers once
ASSUME {Number(T(D, 5 * m)) : m \in 0..287} = 1..288
ASSUME \A m \in 1..287 : m # 49 => Number(T(D, 5 * m)) = Number(T(D, 5 * (m - 1))) + 1
ASSUME Number(T(D, 245)) = 1 /\ Number(T(D + 1, 240)) = 288 /\ MarketDay(T(D + 1, 240)) = D
ASSUME DayOf(1970, 1, 1) = 0 /\ DayOf(2020, 1, 1) = 18262 /\ DateOf(18321) = << 2020, 2, 29 >> /\ DateOf(18322) = << 2020, 3, 1 >>
ASSUME \A n \in 16000..21000 : LET d == DateOf(n) IN DayOf(d[1], d[2], d[3]) = n
ArchOf(x) == [d \in 1..Cardinality(DOMAIN x.arch) |-> LET k == SetToSeq(DOMAIN x.arch)[d] IN [day |-> k, files |-> SetToSeq(x.arch[k].files), bad |-> x.arch[k].bad]]
ASSUME "VP_OUT" \in DOMAIN IOEnv =>
  JsonSerialize(IOEnv.VP_OUT, [menu |-> Menu, worlds |-> [i \in 1..Len(Worlds) |-> [arch |-> ArchOf(Worlds[i]), cache |-> SetToSeq(Worlds[i].cache)]]])
=============================================================================
