-------------------------------- MODULE Agg ---------------------------------
(***************************************************************************)
(* The aggregators of src/agg.rs: an accumulator is fed the values of one     *)
(* group, gives its result and is reset for the next group.                   *)
(* A value is a word w over the symbols 0 (a separator), 1 < 2, ... and an    *)
(* integer n.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxVals, MaxWord, Syms
VARIABLES groups, g, i, acc, res
vars == <<groups, g, i, acc, res>>

Words == UNION {[1..n -> Syms] : n \in 0..MaxWord}
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
NumOf(w) == 3 * SumOf(w) - 4 * Len(w)
Values == {[w |-> w, n |-> NumOf(w)] : w \in Words}
Given == ndJsonDeserialize("given.ndjson")
\* all divisions of up to MaxVals values in one or two groups
Universe == UNION {{<<s>> : s \in [1..k -> Values]} : k \in 1..MaxVals}
            \cup UNION {{<<SubSeq(s, 1, m), SubSeq(s, m + 1, k)>> : s \in [1..k -> Values], m \in 1..k - 1} : k \in 2..MaxVals}

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Less(_, _)
Less(a, b) == IF a = <<>> THEN b # <<>>
              ELSE IF b = <<>> THEN FALSE
              ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
              ELSE Less(Tail(a), Tail(b))

\* ------------------------- the accumulators ---------------------------------
Zero == [empty |-> TRUE, cnt |-> 0, sum |-> 0, lo |-> <<>>, hi |-> <<>>, nlo |-> 0, nhi |-> 0,
         pre |-> <<>>, suf |-> <<>>, buf |-> <<>>,
         slo |-> <<>>, shi |-> <<>>, fold |-> 1,
         csum |-> 0, cmin |-> -1, cmax |-> 0, wsum |-> 0, wmin |-> -1, wmax |-> 0]
\* words by scanning: a separator ends a word
RECURSIVE Scan(_, _)
Scan(w, space) == IF w = <<>> THEN 0
                  ELSE IF Head(w) = 0 THEN Scan(Tail(w), TRUE)
                  ELSE (IF space THEN 1 ELSE 0) + Scan(Tail(w), FALSE)
Nwords(w) == Scan(w, TRUE)
RECURSIVE CutPre(_, _)
CutPre(a, b) == IF a = <<>> \/ b = <<>> \/ Head(a) # Head(b) THEN <<>> ELSE <<Head(a)>> \o CutPre(Tail(a), Tail(b))
Rev(s) == [n \in 1..Len(s) |-> s[Len(s) + 1 - n]]
CutSuf(a, b) == Rev(CutPre(Rev(a), Rev(b)))
Feed(a, x) ==
  [empty |-> FALSE, cnt |-> a.cnt + 1, sum |-> a.sum + x.n,
   lo |-> IF a.empty \/ Less(x.w, a.lo) THEN x.w ELSE a.lo,
   hi |-> IF a.empty \/ Less(a.hi, x.w) THEN x.w ELSE a.hi,
   nlo |-> IF a.empty THEN x.n ELSE Min(a.nlo, x.n),
   nhi |-> IF a.empty THEN x.n ELSE Max(a.nhi, x.n),
   pre |-> IF a.empty THEN x.w ELSE CutPre(a.pre, x.w),
   suf |-> IF a.empty THEN x.w ELSE CutSuf(a.suf, x.w),
   \* by length: among equally long words the first stays
   slo |-> IF a.empty \/ Len(x.w) < Len(a.slo) THEN x.w ELSE a.slo,
   shi |-> IF a.empty \/ Len(x.w) > Len(a.shi) THEN x.w ELSE a.shi,
   \* an expression over its own previous value and the line: here v' = 2v + n, starting at 1
   fold |-> 2 * a.fold + x.n,
   buf |-> IF x.w = <<>> THEN a.buf ELSE IF a.buf = <<>> THEN x.w ELSE a.buf \o <<0>> \o x.w,
   csum |-> a.csum + Len(x.w), cmin |-> IF a.cmin < 0 THEN Len(x.w) ELSE Min(a.cmin, Len(x.w)), cmax |-> Max(a.cmax, Len(x.w)),
   wsum |-> a.wsum + Nwords(x.w), wmin |-> IF a.wmin < 0 THEN Nwords(x.w) ELSE Min(a.wmin, Nwords(x.w)), wmax |-> Max(a.wmax, Nwords(x.w))]
\* merge: split the joined text, sort (stable insertion), drop adjacent equals
RECURSIVE Split(_, _)
Split(s, cur) == IF s = <<>> THEN <<cur>>
                 ELSE IF Head(s) = 0 THEN <<cur>> \o Split(Tail(s), <<>>)
                 ELSE Split(Tail(s), Append(cur, Head(s)))
RECURSIVE Insert(_, _)
Insert(p, s) == IF s = <<>> THEN <<p>> ELSE IF Less(p, Head(s)) THEN <<p>> \o s ELSE <<Head(s)>> \o Insert(p, Tail(s))
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(s[Len(s)], Sorted(SubSeq(s, 1, Len(s) - 1)))
RECURSIVE Dedup(_)
Dedup(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = s[2] THEN Dedup(Tail(s)) ELSE <<s[1]>> \o Dedup(Tail(s))
RECURSIVE InsertLen(_, _)
InsertLen(p, s) == IF s = <<>> THEN <<p>> ELSE IF Len(p) <= Len(Head(s)) THEN <<p>> \o s ELSE <<Head(s)>> \o InsertLen(p, Tail(s))
RECURSIVE ByLen(_)
ByLen(s) == IF s = <<>> THEN <<>> ELSE InsertLen(Head(s), ByLen(Tail(s)))
RECURSIVE DedupLen(_)
DedupLen(s) == IF Len(s) < 2 THEN s ELSE IF Len(s[1]) = Len(s[2]) THEN DedupLen(<<s[1]>> \o SubSeq(s, 3, Len(s))) ELSE <<s[1]>> \o DedupLen(Tail(s))
Result(a) == LET parts == IF a.buf = <<>> THEN <<>> ELSE Split(a.buf, <<>>)
             IN [a EXCEPT !.buf = <<>>] @@ [parts |-> parts, sorted |-> Sorted(parts), uniq |-> Dedup(parts), suniq |-> Dedup(Sorted(parts)),
             lsorted |-> ByLen(parts), luniq |-> DedupLen(parts), lsuniq |-> DedupLen(ByLen(parts))]

Start(x) == groups = x /\ g = 1 /\ i = 1 /\ acc = Zero /\ res = <<>>
Init == \/ \E x \in Universe : Start(x)
        \/ \E n \in 1..Len(Given) : Start(Given[n].groups)
Done == g > Len(groups)
Add == /\ ~Done /\ i <= Len(groups[g])
       /\ acc' = Feed(acc, groups[g][i]) /\ i' = i + 1 /\ UNCHANGED <<groups, g, res>>
Close == /\ ~Done /\ i > Len(groups[g])
         /\ res' = Append(res, Result(acc)) /\ acc' = Zero
         /\ g' = g + 1 /\ i' = 1 /\ UNCHANGED groups
Next == Add \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------- meaning --------------------------------
Dom(s) == 1..Len(s)
RECURSIVE Total(_, _)
Total(f(_), s) == IF s = <<>> THEN 0 ELSE f(Head(s)) + Total(f, Tail(s))
IsPrefix(p, w) == Len(p) <= Len(w) /\ SubSeq(w, 1, Len(p)) = p
IsSuffix(p, w) == Len(p) <= Len(w) /\ SubSeq(w, Len(w) - Len(p) + 1, Len(w)) = p
Longest(P(_, _), vs, r) == /\ \A n \in Dom(vs) : P(r, vs[n].w)
                           /\ \A m \in Len(r) + 1..Len(vs[1].w) :
                                ~(\E c \in {SubSeq(vs[1].w, 1, m), SubSeq(vs[1].w, Len(vs[1].w) - m + 1, Len(vs[1].w))} : \A n \in Dom(vs) : P(c, vs[n].w))
\* number of maximal runs of non-separators
Runs(w) == Cardinality({n \in Dom(w) : w[n] # 0 /\ (n = 1 \/ w[n - 1] = 0)})
Least(vs, r, f(_)) == (\E n \in Dom(vs) : f(vs[n]) = r) /\ (\A n \in Dom(vs) : f(vs[n]) >= r)
Most(vs, r, f(_)) == (\E n \in Dom(vs) : f(vs[n]) = r) /\ (\A n \in Dom(vs) : f(vs[n]) <= r)
Bag(s) == [p \in {s[n] : n \in Dom(s)} |-> Cardinality({n \in Dom(s) : s[n] = p})]
RECURSIVE Flat(_)
Flat(vs) == IF vs = <<>> THEN <<>> ELSE (IF Head(vs).w = <<>> THEN <<>> ELSE Split(Head(vs).w, <<>>)) \o Flat(Tail(vs))
\* the positions of the parts of one length, in order
OfLen(s, n) == SelectSeq(s, LAMBDA p : Len(p) = n)
RECURSIVE Power(_)
Power(n) == IF n = 0 THEN 1 ELSE 2 * Power(n - 1)
RECURSIVE Weighted(_)
Weighted(vs) == IF vs = <<>> THEN 0 ELSE Power(Len(vs) - 1) * Head(vs).n + Weighted(Tail(vs))
Nv(x) == x.n
Lv(x) == Len(x.w)
Wv(x) == Runs(x.w)
Right(vs, r) ==
  /\ r.cnt = Len(vs) /\ r.sum = Total(Nv, vs)
  /\ Least(vs, r.nlo, Nv) /\ Most(vs, r.nhi, Nv)
  /\ (\E n \in Dom(vs) : vs[n].w = r.lo) /\ (\A n \in Dom(vs) : ~Less(vs[n].w, r.lo))
  /\ (\E n \in Dom(vs) : vs[n].w = r.hi) /\ (\A n \in Dom(vs) : ~Less(r.hi, vs[n].w))
  /\ Longest(IsPrefix, vs, r.pre) /\ Longest(IsSuffix, vs, r.suf)
  /\ r.csum = Total(Lv, vs) /\ Least(vs, r.cmin, Lv) /\ Most(vs, r.cmax, Lv)
  /\ r.wsum = Total(Wv, vs) /\ Least(vs, r.wmin, Wv) /\ Most(vs, r.wmax, Wv)
  /\ \E n \in Dom(vs) : vs[n].w = r.slo /\ (\A m \in Dom(vs) : Len(vs[m].w) >= Len(r.slo) /\ (m < n => Len(vs[m].w) > Len(r.slo)))
  /\ \E n \in Dom(vs) : vs[n].w = r.shi /\ (\A m \in Dom(vs) : Len(vs[m].w) <= Len(r.shi) /\ (m < n => Len(vs[m].w) < Len(r.shi)))
  /\ r.fold = Power(Len(vs)) + Weighted(vs)
  /\ \A n \in 1..Len(r.lsorted) - 1 : Len(r.lsorted[n]) <= Len(r.lsorted[n + 1])
  /\ \A n \in {Len(r.parts[m]) : m \in Dom(r.parts)} : OfLen(r.lsorted, n) = OfLen(r.parts, n)
  /\ Len(r.lsorted) = Len(r.parts)
  /\ \A n \in 1..Len(r.lsuniq) - 1 : Len(r.lsuniq[n]) < Len(r.lsuniq[n + 1])
  /\ \A n \in 1..Len(r.luniq) - 1 : Len(r.luniq[n]) # Len(r.luniq[n + 1])
  /\ r.parts = Flat(vs)
  /\ Bag(r.sorted) = Bag(r.parts) /\ (\A n \in 1..Len(r.sorted) - 1 : ~Less(r.sorted[n + 1], r.sorted[n]))
  /\ {r.suniq[n] : n \in Dom(r.suniq)} = {r.parts[n] : n \in Dom(r.parts)} /\ (\A n \in 1..Len(r.suniq) - 1 : Less(r.suniq[n], r.suniq[n + 1]))
  /\ \A n \in 1..Len(r.uniq) - 1 : r.uniq[n] # r.uniq[n + 1]
\* every group's result depends on that group alone
ResultsRight == \A n \in 1..Len(res) : Right(groups[n], res[n])
Terminates == <>Done
Emit == Done => PrintT(ToJson([groups |-> groups, res |-> res]))
=============================================================================
