----------------------------- MODULE CacheTrace ------------------------------
(* Calls recorded from a real cache manager over a stand-in for the archive. *)
EXTENDS Cache, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES k, done
Init == k \in 1..Len(Traces) /\ done = FALSE
Bad(cl, wh, got, want) == << [cl |-> cl, wh |-> wh, got |-> ToString(got), want |-> ToString(want)] >>
ArchOf(t) == [d \in {t.arch[i].day : i \in 1..Len(t.arch)} |-> LET r == CHOOSE r \in Range(t.arch) : r.day = d IN [files |-> Range(r.files), bad |-> r.bad]]
Start(t) == [cache |-> Range(t.cache), arch |-> ArchOf(t), at |-> [day |-> -1, min |-> 0], loaded |-> Nothing, asked |-> << >>, err |-> "none"]
Names(fs) == {FileName(f) : f \in fs}
ViolOf(t, f) == LET x == {r \in Range(t.viol) : r.f = f} IN IF x = {} THEN {} ELSE Range((CHOOSE r \in x : TRUE).v)

JudgeLoad(s, c) ==
  LET n == Load(s, c.t)
  IN IF c.err # n.err THEN Bad("load-outcome", Text(c.t), c.err, n.err)
     ELSE (IF Range(c.names) = Names(n.cache) THEN << >> ELSE Bad("files-in-cache", Text(c.t), c.names, Names(n.cache)))
       \o (IF c.asked = n.asked THEN << >> ELSE Bad("requests", Text(c.t), c.asked, n.asked))
       \o (IF n.err # "none" \/ c.loaded = FileName(n.loaded) THEN << >> ELSE Bad("wrong-case-loaded", Text(c.t), c.loaded, FileName(n.loaded)))
       \o (IF n.err # "none" THEN << >>
           ELSE (IF c.name = FileName(n.loaded) THEN << >> ELSE Bad("file-name", Text(c.t), c.name, FileName(n.loaded)))
             \o (IF c.ocd = n.loaded.ocd THEN << >> ELSE Bad("over-constrained-rerun", Text(c.t), c.ocd, n.loaded.ocd))
             \o (IF c.incache THEN << >> ELSE Bad("in-cache", Text(c.t), c.incache, TRUE)))
JudgePop(s, c) ==
  LET days == IF c.c = "months" THEN Months(c.a[1], c.a[2], c.b[1], c.b[2]) ELSE << DayOf(c.a[1], c.a[2], c.a[3]), DayOf(c.b[1], c.b[2], c.b[3]) >>
      a == days[1] b == days[2]
      wh == ToString(c.a) \o " " \o ToString(c.b)
  IN IF MustRaise(s, a, b) /\ c.err # "MissingDataError" THEN Bad("populate-outcome", wh, c.err, "MissingDataError")
     ELSE IF ~MayRaise(s, a, b) /\ c.err # "none" THEN Bad("populate-outcome", wh, c.err, "none")
     ELSE (IF c.err = "none" /\ ~(Names(MustHave(s, a, b)) \subseteq Range(c.names)) THEN Bad("populate-incomplete", wh, Names(MustHave(s, a, b)) \ Range(c.names), {}) ELSE << >>)
       \o (IF Names(s.cache) \subseteq Range(c.names) THEN << >> ELSE Bad("files-lost", wh, c.names, Names(s.cache)))
       \o (IF Range(c.names) \subseteq Names(s.cache \cup MayHave(s, a, b)) THEN << >> ELSE Bad("files-not-asked-for", wh, c.names, Names(MayHave(s, a, b))))
JudgeFind(t, s, c) ==
  LET days == Months(c.a[1], c.a[2], c.b[1], c.b[2])
      hits == SelectSeq(FiveMin(days[1], days[2]), LAMBDA x : Holds(s, x) /\ ViolOf(t, FileThere(s, x)) # {})
      want == [i \in 1..(IF Len(hits) < c.limit THEN Len(hits) ELSE c.limit) |-> [t |-> Text(hits[i]), v |-> ViolOf(t, FileThere(s, hits[i]))]]
      got == [i \in 1..Len(c.got) |-> [t |-> c.got[i].t, v |-> Range(c.got[i].v)]]
  IN IF c.err # "none" THEN Bad("find-outcome", ToString(c.a), c.err, "none")
     ELSE IF got = want THEN << >> ELSE Bad("violated-intervals", ToString(c.a), got, want)
\* after a call that is not a load the cache is what the disk shows
Seen(t, c) == {f \in Range(t.all) : FileName(f) \in Range(c.names)}
Judge(t) ==
  FoldLeft(LAMBDA a, j : LET c == t.calls[j]
                             f == IF c.c = "load" THEN JudgeLoad(a.s, c) ELSE IF c.c = "find" THEN JudgeFind(t, a.s, c) ELSE JudgePop(a.s, c) IN
     [s |-> IF c.c = "load" THEN [Load(a.s, c.t) EXCEPT !.cache = Seen(t, c)] ELSE [a.s EXCEPT !.cache = Seen(t, c)],
      fails |-> a.fails \o [x \in 1..Len(f) |-> f[x] @@ [at |-> j]]],
   [s |-> Start(t), fails |-> << >>], [j \in 1..Len(t.calls) |-> j])
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ JsonSerialize(IOEnv.VP_OUT \o "/v_" \o Traces[k].id \o ".json", [fails |-> Judge(Traces[k]).fails])
Spec == Init /\ [][Next]_<<k, done>>
=============================================================================
