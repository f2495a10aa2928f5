-------------------------------- MODULE Sample --------------------------------
(***************************************************************************)
(* cdx sample (src/bin/cdx/sample_main.rs, src/sampler.rs).  Each file is     *)
(* sampled on its own.  A file is its number of data lines.  how is           *)
(*   [k |-> "even", n]            about n evenly spaced lines (Smooth)        *)
(*   [k |-> "for", by, from, to]  every by-th line from from up to to         *)
(*   [k |-> "range", rs]          the lines in the ranges <<lo, hi>>          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxFiles, MaxLines, Evens, Bound
VARIABLES files, how, f, i, data, jump, pos, nxt, out, phase
vars == <<files, how, f, i, data, jump, pos, nxt, out, phase>>
Given == ndJsonDeserialize("given.ndjson")
Hows == {[k |-> "even", n |-> n, by |-> 0, from |-> 0, to |-> 0, rs |-> <<>>] : n \in Evens}
        \cup {[k |-> "for", n |-> 0, by |-> b, from |-> a, to |-> t, rs |-> <<>>] : b \in 1..Bound, a \in 1..Bound, t \in 1..Bound + 1}
        \cup {[k |-> "range", n |-> 0, by |-> 0, from |-> 0, to |-> 0, rs |-> r] :
              r \in UNION {[1..m -> {<<a, b>> : a \in 1..Bound, b \in 1..Bound}] : m \in 1..2}}
Start(fs, h) == /\ files = fs /\ how = h /\ f = 1 /\ i = 1 /\ data = <<>> /\ jump = 1 /\ pos = 0
                /\ nxt = h.from /\ out = <<>> /\ phase = "line"
\* the even sampler over one long file; the other two over up to MaxFiles short ones
Init == \/ \E h \in Hows : h.k = "even" /\ \E m \in 0..MaxLines : Start(<<m>>, h)
        \/ \E h \in Hows : h.k # "even" /\ \E n \in 1..MaxFiles : \E fs \in [1..n -> 0..Bound + 1] : Start(fs, h)
        \/ \E n \in 1..Len(Given) : Start(Given[n].files, Given[n].how)

Max(a, b) == IF a >= b THEN a ELSE b
Small == Max(how.n, 2)
Large == Max(2 * Small - 2, Small + 1)
\* keep the first and the last entry and spread the rest
Collapse(d) ==
  IF Len(d) <= Small THEN d
  ELSE IF Small = 2 THEN <<d[1], d[Len(d)]>>
  ELSE [j \in 1..Small |-> IF j = 1 THEN d[1] ELSE IF j = Small THEN d[Len(d)]
                           ELSE d[1 + ((j - 1) * (Len(d) - 2)) \div (Small - 2)]]
More == phase = "line" /\ f <= Len(files) /\ i <= files[f]
Even == /\ More /\ how.k = "even"
        /\ IF pos = 0 THEN
             LET full == Len(data) >= Large
                 d == IF full THEN Collapse(data) ELSE data
                 jp == IF full THEN 2 * jump ELSE jump
             IN data' = Append(d, i) /\ jump' = jp /\ pos' = IF jp > 1 THEN 1 ELSE 0
           ELSE /\ data' = [data EXCEPT ![Len(data)] = i]
                /\ LET limit == IF Len(data) = Large THEN 2 * jump ELSE jump
                   IN pos' = IF pos + 1 >= limit THEN 0 ELSE pos + 1
                /\ UNCHANGED jump
        /\ i' = i + 1 /\ UNCHANGED <<files, how, f, nxt, out, phase>>
For == /\ More /\ how.k = "for" /\ i <= how.to
       /\ IF i = nxt THEN out' = Append(out, [f |-> f, i |-> i]) /\ nxt' = nxt + how.by ELSE UNCHANGED <<out, nxt>>
       /\ i' = i + 1 /\ UNCHANGED <<files, how, f, data, jump, pos, phase>>
In(r, x) == r[1] <= x /\ x <= r[2]
Range == /\ More /\ how.k = "range" /\ \E j \in 1..Len(how.rs) : i <= how.rs[j][2]
         /\ out' = IF \E j \in 1..Len(how.rs) : In(how.rs[j], i) THEN Append(out, [f |-> f, i |-> i]) ELSE out
         /\ i' = i + 1 /\ UNCHANGED <<files, how, f, data, jump, pos, nxt, phase>>
EndFile == /\ phase = "line" /\ f <= Len(files)
           /\ ~(ENABLED Even) /\ ~(ENABLED For) /\ ~(ENABLED Range)
           /\ out' = IF how.k = "even" THEN LET d == Collapse(data) IN out \o [j \in 1..Len(d) |-> [f |-> f, i |-> d[j]]] ELSE out
           /\ f' = f + 1 /\ i' = 1 /\ data' = <<>> /\ jump' = 1 /\ pos' = 0 /\ nxt' = how.from
           /\ UNCHANGED <<files, how, phase>>
Finish == phase = "line" /\ f > Len(files) /\ phase' = "done" /\ UNCHANGED <<files, how, f, i, data, jump, pos, nxt, out>>
Next == Even \/ For \/ Range \/ EndFile \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------- meaning --------------------------------
Of(k) == LET s == SelectSeq(out, LAMBDA o : o.f = k) IN [j \in 1..Len(s) |-> s[j].i]
Wanted(x) == \/ how.k = "for" /\ x <= how.to /\ \E j \in 0..x : x = how.from + j * how.by
             \/ how.k = "range" /\ \E j \in 1..Len(how.rs) : In(how.rs[j], x)
Min(a, b) == IF a <= b THEN a ELSE b
InOrder == \A a, b \in 1..Len(out) : a < b => out[a].f < out[b].f \/ (out[a].f = out[b].f /\ out[a].i < out[b].i)
\* even: as many as asked for (at least two), the first and the last, no gap more than twice the even one
EvenRight == (phase = "done" /\ how.k = "even") => \A k \in 1..Len(files) :
   LET s == Of(k)
       m == files[k]
   IN /\ Len(s) = Min(m, Small)
      /\ m > 0 => s[1] = 1 /\ s[Len(s)] = m
      /\ \A j \in 1..Len(s) - 1 : (s[j + 1] - s[j]) * (Len(s) - 1) <= 2 * (m - 1)
PickRight == (phase = "done" /\ how.k # "even") => \A k \in 1..Len(files) :
   LET s == Of(k) IN {s[j] : j \in 1..Len(s)} = {x \in 1..files[k] : Wanted(x)}
\* the sampler never outgrows its room, and always holds the first and the latest line
RoomRight == how.k = "even" => Len(data) <= Large /\ (data # <<>> => data[1] = 1 /\ data[Len(data)] = i - 1)
Terminates == <>(phase = "done")
Emit == phase = "done" => PrintT(ToJson([files |-> files, how |-> how, out |-> out]))
=============================================================================
