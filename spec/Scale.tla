------------------------------- MODULE Scale --------------------------------
(***************************************************************************)
(* Laws that relate the result for a small input to the result for the same  *)
(* input made larger.  Counters, buffers and tables in the code have sizes     *)
(* no enumerable input reaches; these laws carry a specified result from an     *)
(* enumerated input to one of any size, and the replays use them that way.      *)
(*   Block(s, n)   : s written n times over                                    *)
(*   Stutter(s, n) : every line of s written n times                           *)
(* A line has a key k, and a value v for which a tool may look.  The laws are  *)
(* checked here for every short input, every line function and every n.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen, MaxN, Keys, Vals
VARIABLES s, n, f, i, acc
vars == <<s, n, f, i, acc>>

Line == [k : Keys, v : Vals]
Inputs == UNION {[1..m -> Line] : m \in 0..MaxLen}
Block(x, m) == [j \in 1..(m * Len(x)) |-> x[((j - 1) % Len(x)) + 1]]
Stutter(x, m) == [j \in 1..(m * Len(x)) |-> x[((j - 1) \div m) + 1]]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* a line-wise tool: each line becomes zero, one or more lines, whatever stands around it
LineWise(x, g) == Flat([j \in 1..Len(x) |-> g[x[j]]])
\* runs of equal keys as <<key, length, sum, least, greatest>>
RECURSIVE RunsOf(_)
RunsOf(x) == IF x = <<>> THEN <<>>
             ELSE LET e == x[Len(x)] IN LET r == RunsOf(SubSeq(x, 1, Len(x) - 1)) IN
                  IF r # <<>> /\ r[Len(r)].k = e.k
                  THEN [r EXCEPT ![Len(r)] = [k |-> e.k, c |-> @.c + 1, t |-> @.t + e.v,
                                             lo |-> IF e.v < @.lo THEN e.v ELSE @.lo, hi |-> IF e.v > @.hi THEN e.v ELSE @.hi,
                                             a |-> @.a, z |-> e.v]]
                  ELSE Append(r, [k |-> e.k, c |-> 1, t |-> e.v, lo |-> e.v, hi |-> e.v, a |-> e.v, z |-> e.v])
             
\* insertion sort by key, stable
RECURSIVE Ins(_, _), Sorted(_)
Ins(x, e) == IF x = <<>> \/ x[Len(x)].k <= e.k THEN Append(x, e) ELSE Append(Ins(SubSeq(x, 1, Len(x) - 1), e), x[Len(x)])
Sorted(x) == IF x = <<>> THEN <<>> ELSE Ins(Sorted(SubSeq(x, 1, Len(x) - 1)), x[Len(x)])
Uniqued(x) == LET r == Sorted(x) IN LET keep == {j \in 1..Len(r) : j = 1 \/ r[j - 1].k # r[j].k} IN
              [m \in 1..Cardinality(keep) |-> r[CHOOSE j \in keep : Cardinality({q \in keep : q <= j}) = m]]

\* the scaled input is consumed a line at a time by a line-wise tool
Init == /\ s \in Inputs /\ n \in 1..MaxN /\ f \in [Line -> {<<>>, <<1>>, <<1, 2>>}]
        /\ i = 0 /\ acc = <<>>
Next == /\ i < n * Len(s) /\ i' = i + 1
        /\ acc' = acc \o f[Block(s, n)[i + 1]]
        /\ UNCHANGED <<s, n, f>>
Spec == Init /\ [][Next]_vars

Start == i = 0
BlockLaw == i = n * Len(s) => acc = (LET o == LineWise(s, f) IN IF o = <<>> THEN <<>> ELSE Block(o, n))
\* every run is n times as long, its sum n times as large; its ends and extremes stay
RunLaw == Start => LET r == RunsOf(s) q == RunsOf(Stutter(s, n)) IN
                   /\ Len(r) = Len(q)
                   /\ \A j \in 1..Len(r) : q[j] = [r[j] EXCEPT !.c = @ * n, !.t = @ * n]
SortLaw == Start => /\ Sorted(Stutter(s, n)) = Stutter(Sorted(s), n)
                    /\ Uniqued(Stutter(s, n)) = Uniqued(s)
                    /\ Uniqued(Block(s, n)) = Uniqued(s)
\* the lines of a key in a sorted input, with x lines before and y after them
First(q, k) == Cardinality({j \in 1..Len(q) : q[j].k < k}) + 1
Around(q, k, x, y) == LET a == First(q, k) b == First(q, k + 1) - 1 IN
                      SubSeq(q, IF a > x THEN a - x ELSE 1, IF b + y > Len(q) THEN Len(q) ELSE b + y)
RangeLaw == Start => LET q == Sorted(s) IN \A k \in Keys, x, y \in 0..2 :
                     Around(Stutter(q, n), k, n * x, n * y) = (LET r == Around(q, k, x, y) IN IF r = <<>> THEN <<>> ELSE Stutter(r, n))
\* counting lines, and anything counted per line
CountLaw == Start => Len(Block(s, n)) = n * Len(s)
=============================================================================
