-------------------------------- MODULE Rhs --------------------------------
(* Right hand sides of generic constraints: the stack machine of AEMO's
   Constraint Implementation Guidelines (appendix A), as the calculator of the
   historical inputs documents it.

   Numbers are dyadic fractions << n, d >>, so the arithmetic is exact.

   An equation is a sequence of terms
     [ty, id, op, m, df]           ty "C" "U" "A" "S" "R" "I" "W" "T" "E" "M" "N" "X" "B"; op "" for none
     [ty |-> "G", .., body, lay]   a group: its own terms and where they lie in the file
   Data: what each (type, id) is worth at the moment, a sequence of values
   (several SCADA values of one id are summed). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Abs(x) == IF x < 0 THEN -x ELSE x
Pow2 == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536 >>
Norm(n, d) == IF n = 0 THEN << 0, 1 >> ELSE
  LET k == CHOOSE k \in 1..Len(Pow2) : n % Pow2[k] = 0 /\ d % Pow2[k] = 0 /\ (k = Len(Pow2) \/ n % Pow2[k + 1] # 0 \/ d % Pow2[k + 1] # 0)
  IN << n \div Pow2[k], d \div Pow2[k] >>
Zero == << 0, 1 >>
One == << 1, 1 >>
Small(a) == Abs(a[1]) <= 20000 /\ a[2] <= 256
Tiny(a) == Abs(a[1]) <= 200 /\ a[2] <= 8
Neg(a) == << -a[1], a[2] >>
Add(a, b) == Norm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == Norm(a[1] * b[1], a[2] * b[2])
Inv(a) == IF a[1] < 0 THEN << -a[2], -a[1] >> ELSE << a[2], a[1] >>
Dyadic(n) == Abs(n) \in Range(Pow2)
Leq(a, b) == a[1] * b[2] <= b[1] * a[2]
Max2(a, b) == IF Leq(a, b) THEN b ELSE a
Min2(a, b) == IF Leq(a, b) THEN a ELSE b
AbsR(a) == << Abs(a[1]), a[2] >>
Square(n) == \E r \in 0..150 : r * r = n
Root(n) == CHOOSE r \in 0..150 : r * r = n
Positive(a) == a[1] > 0

(* A machine is [st, fl, ok]: ok = "y"; "refused": the calculator says so; "?": not decided here. *)
Start == [st |-> << Zero >>, fl |-> FALSE, ok |-> "y"]
Undecided(s) == [s EXCEPT !.ok = "?"]
Refused(s) == [s EXCEPT !.ok = "refused"]
Put(s, v) == IF Small(v) THEN [s EXCEPT !.st = << v >> \o Tail(s.st)] ELSE Undecided(s)          \* replaces the top
Drop(s, v) == IF Small(v) THEN [s EXCEPT !.st = << v >> \o Tail(Tail(s.st))] ELSE Undecided(s)   \* replaces the top two
Grow(s, v) == IF Small(v) THEN [s EXCEPT !.st = << v >> \o s.st] ELSE Undecided(s)

Two == {"ADD", "SUB", "MUL", "DIV", "MAX", "MIN"}
One1 == {"STEP", "POW2", "POW3", "SQRT", "ABS", "NEG"}
Moves == {"DUP", "EXCH", "RSD", "RSU"}

Can1(op, v) == CASE op = "POW2" -> Tiny(v) [] op = "POW3" -> Abs(v[1]) <= 40 /\ v[2] <= 4
                 [] op = "SQRT" -> v[1] >= 0 /\ Square(v[1]) /\ Square(v[2]) [] OTHER -> TRUE
Do1(op, v) == CASE op = "STEP" -> IF Positive(v) THEN One ELSE Zero
                [] op = "POW2" -> Mul(v, v) [] op = "POW3" -> Mul(v, Mul(v, v))
                [] op = "SQRT" -> << Root(v[1]), Root(v[2]) >> [] op = "ABS" -> AbsR(v) [] op = "NEG" -> Neg(v)
Can2(op, a, b) == op = "DIV" => b[1] # 0 /\ Dyadic(b[1])
Do2(op, a, b) == CASE op = "ADD" -> Add(a, b) [] op = "SUB" -> Sub(a, b) [] op = "MUL" -> Mul(a, b)
                   [] op = "DIV" -> Mul(a, Inv(b)) [] op = "MAX" -> Max2(a, b) [] op = "MIN" -> Min2(a, b)

(* a term on the stack itself *)
StackTerm(s, t) ==
  LET top == s.st[1]
      h == Len(s.st)
  IN CASE t.op = "" -> Put(s, Mul(top, t.m))
       [] t.op \in One1 -> IF Can1(t.op, top) THEN LET v == Do1(t.op, top) IN IF Small(v) THEN Put(s, Mul(v, t.m)) ELSE Undecided(s) ELSE Undecided(s)
       [] t.op = "ADD" /\ h < 2 -> Undecided(s)
       [] t.op \in Two /\ h < 2 -> Refused(s)
       [] t.op \in Two -> IF ~Can2(t.op, s.st[2], top) THEN Undecided(s)
                          ELSE LET v == Do2(t.op, s.st[2], top) IN IF Small(v) THEN Drop(s, Mul(v, t.m)) ELSE Undecided(s)
       [] t.op = "DUP" -> Grow(s, Mul(top, t.m))
       [] t.op \in Moves /\ h < 2 -> Refused(s)
       [] t.op = "EXCH" -> Put([s EXCEPT !.st = << s.st[2], s.st[1] >> \o Tail(Tail(s.st))], Mul(s.st[2], t.m))
       [] t.op = "RSD" -> Put([s EXCEPT !.st = << s.st[h] >> \o Front(s.st)], Mul(s.st[h], t.m))
       [] t.op = "RSU" -> Put([s EXCEPT !.st = Tail(s.st) \o << top >>], Mul(s.st[2], t.m))
       [] t.op = "POP" -> IF h < 2 THEN Undecided(s) ELSE [s EXCEPT !.st = Tail(s.st), !.fl = ~Positive(top)]
       [] t.op = "EXLEZ" -> IF h < 2 THEN Undecided(s)
                            ELSE IF s.fl THEN [Put([s EXCEPT !.st = << s.st[2], s.st[1] >> \o Tail(Tail(s.st))], Mul(s.st[2], t.m)) EXCEPT !.fl = FALSE]
                            ELSE Put(s, Mul(top, t.m))
       [] OTHER -> Undecided(s)

(* a term with a value of its own; a constant is its factor *)
ValueTerm(s, t, v0) ==
  LET v == IF t.ty = "C" THEN t.m ELSE v0
      m == IF t.ty = "C" THEN One ELSE t.m
      top == s.st[1]
  IN CASE t.op = "" -> Put(s, Add(top, Mul(v, m)))
       [] t.op \in One1 -> IF t.ty = "C" /\ t.op = "STEP" THEN Undecided(s)
                           ELSE IF Can1(t.op, v) THEN LET w == Do1(t.op, v) IN IF Small(w) THEN Put(s, Add(top, Mul(w, m))) ELSE Undecided(s) ELSE Undecided(s)
       [] t.op \in Two -> IF Can2(t.op, top, v) THEN LET w == Do2(t.op, top, v) IN IF Small(w) THEN Put(s, Mul(w, m)) ELSE Undecided(s) ELSE Undecided(s)
       [] t.op = "PUSH" -> Grow(s, Mul(v, m))
       [] t.op = "POP" -> IF t.ty = "C" THEN Undecided(s) ELSE [s EXCEPT !.fl = ~Positive(v)]
       [] OTHER -> Undecided(s)

Has(data, t) == << t.ty, t.id >> \in DOMAIN data
Sum(vs) == FoldLeft(Add, Zero, vs)
\* operations for which the calculator falls back to the default of the term when there is no value
Fallback == Two \cup {"PUSH", "STEP"}
Known(data, t) == t.ty = "C" \/ Has(data, t) \/ t.op \in Fallback
Value(data, t) == IF t.ty = "C" THEN t.m ELSE IF Has(data, t) THEN Sum(data[<< t.ty, t.id >>]) ELSE t.df

(* One term, given what groups and functions are worth: G(t) and X(t) are results [v, ok] *)
Step(data, s, t, sub(_)) ==
  \* in which order functions, groups and the stack are worked out is left open
  IF s.ok = "refused" /\ t.ty \in {"G", "X"} THEN (IF sub(t).ok = "?" THEN Undecided(s) ELSE s)
  ELSE IF s.ok # "y" THEN s
  ELSE IF t.ty = "B" THEN Refused(s)
  ELSE IF t.ty = "U" THEN StackTerm(s, t)
  ELSE IF t.ty \in {"G", "X"} THEN
    LET r == sub(t) IN IF r.ok = "y" THEN ValueTerm(s, t, r.v) ELSE [s EXCEPT !.ok = r.ok]
  ELSE IF Known(data, t) THEN ValueTerm(s, t, Value(data, t)) ELSE Undecided(s)

Result(s) == [v |-> s.st[1], ok |-> s.ok]
NoSub(t) == [v |-> Zero, ok |-> "?"]
Run(data, eq, sub(_)) == Result(FoldLeft(LAMBDA s, t : Step(data, s, t, sub), Start, eq))

(* A function cannot refer to another function; groups nest once. *)
Eval0(data, eq) == Run(data, eq, NoSub)
Eval1(data, eq) == Run(data, eq, LAMBDA t : IF t.ty = "G" THEN Eval0(data, t.body) ELSE [v |-> Zero, ok |-> "?"])
Eval2(data, eq) == Run(data, eq, LAMBDA t : IF t.ty = "G" THEN Eval1(data, t.body) ELSE [v |-> Zero, ok |-> "?"])
Fn(data, fns, t) == IF t.id \in DOMAIN fns THEN Eval1(data, fns[t.id]) ELSE [v |-> Zero, ok |-> "?"]
EvalX1(data, fns, eq) == Run(data, eq, LAMBDA t : IF t.ty = "G" THEN Eval1(data, t.body) ELSE Fn(data, fns, t))
Eval(data, fns, eq) == Run(data, eq, LAMBDA t : IF t.ty = "G" THEN EvalX1(data, fns, t.body) ELSE Fn(data, fns, t))

(* which terms an equation is made of, groups included *)
Leaves0(eq) == {<< eq[i].ty, eq[i].id >> : i \in 1..Len(eq)}
Leaves1(eq) == Leaves0(eq) \cup UNION {Leaves0(eq[i].body) : i \in {j \in 1..Len(eq) : eq[j].ty = "G"}}
Leaves(eq) == Leaves0(eq) \cup UNION {Leaves1(eq[i].body) : i \in {j \in 1..Len(eq) : eq[j].ty = "G"}}
DependsOn(fns, eq, ty, id) ==
  \/ << ty, id >> \in Leaves(eq)
  \/ \E f \in DOMAIN fns : << "X", f >> \in Leaves(eq) /\ << ty, id >> \in Leaves(fns[f])

(* the calculator as a whole: an update of a value *)
Scada == {"A", "S", "I", "W"}
MayUpdate(data, ty, id) == /\ ty \notin {"C", "R", "X", "G", "U", "B"} /\ << ty, id >> \in DOMAIN data
                           /\ ty \in Scada => Len(data[<< ty, id >>]) = 1
Update(data, ty, id, v) == IF MayUpdate(data, ty, id) THEN [data EXCEPT ![<< ty, id >>] = << v >>] ELSE data
=============================================================================
