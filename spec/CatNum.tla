-------------------------------- MODULE CatNum --------------------------------
(***************************************************************************)
(* cdx cat with line options: lines may be removed, numbered, or kept without *)
(* a number; the numbering runs through all files.                            *)
(* A line is [rm, sk]: does --remove match it, does --skip match it.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxFiles, MaxLines, Starts
VARIABLES files, start, f, i, next, out, done
vars == <<files, start, f, i, next, out, done>>
Given == ndJsonDeserialize("given.ndjson")
Line == [rm : BOOLEAN, sk : BOOLEAN]
File == UNION {[1..n -> Line] : n \in 0..MaxLines}
Begin(fs, s) == files = fs /\ start = s /\ f = 1 /\ i = 1 /\ next = s /\ out = <<>> /\ done = FALSE
Init == \/ \E n \in 1..MaxFiles : \E fs \in [1..n -> File], s \in Starts : Begin(fs, s)
        \/ \E n \in 1..Len(Given) : Begin(Given[n].files, Given[n].start)

Step ==
  /\ ~done /\ f <= Len(files) /\ i <= Len(files[f])
  /\ LET l == files[f][i] IN
     IF l.rm THEN UNCHANGED <<next, out>>
     ELSE IF l.sk THEN out' = Append(out, [f |-> f, i |-> i, num |-> <<>>]) /\ UNCHANGED next
     ELSE out' = Append(out, [f |-> f, i |-> i, num |-> <<next>>]) /\ next' = next + 1
  /\ i' = i + 1 /\ UNCHANGED <<files, start, f, done>>
EndFile == /\ ~done /\ f <= Len(files) /\ i > Len(files[f])
           /\ f' = f + 1 /\ i' = 1 /\ UNCHANGED <<files, start, next, out, done>>
Finish == ~done /\ f > Len(files) /\ done' = TRUE /\ UNCHANGED <<files, start, f, i, next, out>>
Next == Step \/ EndFile \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------- meaning --------------------------------
Kept == {<<a, b>> \in (1..Len(files)) \X (1..20) : b <= Len(files[a]) /\ ~files[a][b].rm}
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Numbered == {p \in Kept : ~files[p[1]][p[2]].sk}
Right == done =>
  /\ Len(out) = Cardinality(Kept)
  /\ \A k \in 1..Len(out) :
       LET p == <<out[k].f, out[k].i>> IN
       /\ p \in Kept
       /\ k = 1 + Cardinality({q \in Kept : Before(q, p)})
       /\ out[k].num = IF p \in Numbered THEN <<start + Cardinality({q \in Numbered : Before(q, p)})>> ELSE <<>>
Terminates == <>done
Emit == done => PrintT(ToJson([files |-> files, start |-> start, out |-> out]))
=============================================================================
