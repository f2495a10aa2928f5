------------------------------ MODULE BinSearch ------------------------------
(***************************************************************************)
(* lower_bound_n / upper_bound_n / equal_range_n / find_prev of               *)
(* src/binsearch.rs: binary search over the byte positions of a sorted file.  *)
(* A line is [k |-> key, n |-> length in bytes, newline included]; keys of     *)
(* lines are even, so that the pattern p can equal one or fall between two.   *)
(* Positions are 0-based, as in the code.                                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLines, MaxLen, Ranks
VARIABLES file, p, nl, ctx, begin, end, trapped, lo, res, phase
vars == <<file, p, nl, ctx, begin, end, trapped, lo, res, phase>>

RECURSIVE OffTo(_, _)
OffTo(f, i) == IF i = 0 THEN 0 ELSE OffTo(f, i - 1) + f[i].n      \* first byte after line i
Size == OffTo(file, Len(file))
\* positions that hold a newline byte; nl: the last line has one
NL(x) == \E i \in 1..Len(file) : x = OffTo(file, i) - 1 /\ (i < Len(file) \/ nl)
RECURSIVE FindEnd(_)
FindEnd(x) == IF x >= Size THEN x ELSE IF NL(x) THEN x + 1 ELSE FindEnd(x + 1)
RECURSIVE FindStart(_)
FindStart(x) == IF x > 0 /\ ~NL(x - 1) THEN FindStart(x - 1) ELSE x
FindPrev(x) == IF x <= 1 THEN 0 ELSE FindStart(x - 1)
Starts == {OffTo(file, i - 1) : i \in 1..Len(file)}
LineAt(x) == CHOOSE i \in 1..Len(file) : OffTo(file, i - 1) = x
Mid == (end + begin - 1) \div 2

NonDecr(f) == \A i \in 1..Len(f) - 1 : f[i].k <= f[i + 1].k
Files == UNION {[1..n -> [k : {2 * r : r \in 1..Ranks}, n : 1..MaxLen]] : n \in 0..MaxLines}
Given == ndJsonDeserialize("given.ndjson")
Start(f, v, z, c) ==
  /\ file = f /\ p = v /\ nl = z /\ ctx = c
  /\ begin = 0 /\ end = OffTo(f, Len(f)) /\ trapped = FALSE
  /\ lo = <<>> /\ res = <<>> /\ phase = "lower"
Init == \/ \E f \in {g \in Files : NonDecr(g)}, v \in 1..2 * Ranks + 1, z \in BOOLEAN : Start(f, v, z, <<0, 0, 0, 0>>)
        \/ \E n \in 1..Len(Given) : Start(Given[n].file, Given[n].p, Given[n].nl, Given[n].ctx)

\* the probe: a whole line near the middle of [begin, end)
Probe(trap) == LET s == IF trap THEN begin ELSE FindEnd(Mid)
               IN  IF s = end THEN <<FindStart(Mid), s>> ELSE <<s, FindEnd(s)>>
Lower ==
  /\ phase = "lower" /\ begin < end
  /\ LET pr == Probe(trapped)
         s == pr[1]  t == pr[2]
         k == file[LineAt(s)].k
     IN  IF k = p
         THEN IF s = begin THEN lo' = <<s, t>> /\ phase' = "found" /\ UNCHANGED <<begin, end, trapped>>
              ELSE trapped' = (t = end) /\ end' = t /\ UNCHANGED <<begin, lo, phase>>
         ELSE IF p < k THEN end' = s /\ UNCHANGED <<begin, trapped, lo, phase>>
         ELSE begin' = t /\ UNCHANGED <<end, trapped, lo, phase>>
  /\ UNCHANGED <<file, p, nl, ctx, res>>
LowerNone ==
  /\ phase = "lower" /\ begin >= end
  /\ lo' = <<begin, end>> /\ phase' = "ctx" /\ res' = <<begin, end>>
  /\ UNCHANGED <<file, p, nl, ctx, begin, end, trapped>>
Found == /\ phase = "found" /\ begin' = 0 /\ end' = Size /\ phase' = "upper"
         /\ UNCHANGED <<file, p, nl, ctx, trapped, lo, res>>
Upper ==
  /\ phase = "upper" /\ begin < end
  /\ LET pr == Probe(FALSE)
     IN  IF p < file[LineAt(pr[1])].k THEN end' = pr[1] /\ UNCHANGED begin
                                      ELSE begin' = pr[2] /\ UNCHANGED end
  /\ UNCHANGED <<file, p, nl, ctx, trapped, lo, res, phase>>
UpperDone == /\ phase = "upper" /\ begin >= end
             /\ res' = <<lo[1], begin>> /\ phase' = "ctx"
             /\ UNCHANGED <<file, p, nl, ctx, begin, end, trapped, lo>>
\* context: ctx = <<before a match, before a miss, after a match, after a miss>>
RECURSIVE Back(_, _)
Back(x, n) == IF n = 0 \/ x = 0 THEN x ELSE Back(FindPrev(x), n - 1)
RECURSIVE Forth(_, _)
Forth(x, n) == IF n = 0 THEN x ELSE Forth(FindEnd(x), n - 1)
Widen == /\ phase = "ctx"
         /\ LET miss == res[1] = res[2]
            IN  res' = <<Back(res[1], IF miss THEN ctx[2] ELSE ctx[1]), Forth(res[2], IF miss THEN ctx[4] ELSE ctx[3])>>
         /\ phase' = "done"
         /\ UNCHANGED <<file, p, nl, ctx, begin, end, trapped, lo>>
Next == Lower \/ LowerNone \/ Found \/ Upper \/ UpperDone \/ Widen
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------- meaning --------------------------------
OnLines == begin \in Starts \cup {Size} /\ end \in Starts \cup {Size}
First(P(_)) == LET s == {i \in 1..Len(file) : P(file[i].k)} IN IF s = {} THEN Len(file) + 1 ELSE CHOOSE i \in s : \A j \in s : i <= j
Lb == First(LAMBDA k : k >= p)       \* first line not below the pattern
Ub == First(LAMBDA k : k > p)
BeforeCtx == LET miss == Lb = Ub  b == IF miss THEN ctx[2] ELSE ctx[1] IN IF Lb - b < 1 THEN 1 ELSE Lb - b
AfterCtx == LET miss == Lb = Ub  a == IF miss THEN ctx[4] ELSE ctx[3] IN IF Ub + a > Len(file) + 1 THEN Len(file) + 1 ELSE Ub + a
\* the window always contains the first and, for upper, the last matching line
Loop == /\ phase = "lower" => \A i \in 1..Len(file) : /\ OffTo(file, i) <= begin => file[i].k < p
                                                      /\ OffTo(file, i - 1) >= end => file[i].k >= p
        /\ phase = "upper" => \A i \in 1..Len(file) : /\ OffTo(file, i) <= begin => file[i].k <= p
                                                      /\ OffTo(file, i - 1) >= end => file[i].k > p
ExactRange == phase = "done" => res = <<OffTo(file, BeforeCtx - 1), OffTo(file, AfterCtx - 1)>>
Terminates == <>(phase = "done")
Emit == phase = "done" =>
  PrintT(ToJson([file |-> file, p |-> p, nl |-> nl, ctx |-> ctx, first |-> BeforeCtx, stop |-> AfterCtx]))
=============================================================================
