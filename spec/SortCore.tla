------------------------------- MODULE SortCore -------------------------------
(***************************************************************************)
(* Vocabulary shared by the sorting specifications.                         *)
(* A line is abstracted to [k |-> <<rank of column 1, rank of column 2>>,   *)
(* id |-> position in the concatenation of all inputs].  A key list is a     *)
(* sequence of [col, rev]; comparison is lexicographic over the list.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

RECURSIVE CmpFrom(_, _, _, _)
\* -1 / 0 / 1 encoded as 0 / 1 / 2 so that Naturals suffices
CmpFrom(keys, n, a, b) ==
  IF n > Len(keys) THEN 1
  ELSE LET ka == a.k[keys[n].col]
           kb == b.k[keys[n].col]
       IN  IF ka = kb THEN CmpFrom(keys, n + 1, a, b)
           ELSE IF (ka < kb) # keys[n].rev THEN 0 ELSE 2

Cmp(keys, a, b) == CmpFrom(keys, 1, a, b)
Before(keys, a, b) == Cmp(keys, a, b) = 0
Same(keys, a, b) == Cmp(keys, a, b) = 1

\* insertion sort that never moves a line past an equal one: the stable order
RECURSIVE InsertStable(_, _, _)
InsertStable(keys, s, x) ==
  IF s = <<>> THEN <<x>>
  ELSE IF Before(keys, x, s[Len(s)])
       THEN Append(InsertStable(keys, SubSeq(s, 1, Len(s) - 1), x), s[Len(s)])
       ELSE Append(s, x)

RECURSIVE StableSort(_, _)
StableSort(keys, s) ==
  IF s = <<>> THEN <<>>
  ELSE InsertStable(keys, StableSort(keys, SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

\* keep the first line of each group of adjacent equal lines
RECURSIVE DedupAdj(_, _)
DedupAdj(keys, s) ==
  IF Len(s) <= 1 THEN s
  ELSE LET d == DedupAdj(keys, SubSeq(s, 1, Len(s) - 1))
       IN  IF Same(keys, d[Len(d)], s[Len(s)]) THEN d ELSE Append(d, s[Len(s)])

RunOf(keys, uniq, s) ==
  IF uniq THEN DedupAdj(keys, StableSort(keys, s)) ELSE StableSort(keys, s)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))

Ids(s) == {s[i].id : i \in 1..Len(s)}
LinesOf(s) == {s[i] : i \in 1..Len(s)}

\* ---- declarative meaning of "sorted output", independent of any algorithm ----
IsOrdered(keys, s) ==
  \A i, j \in 1..Len(s) : i < j =>
     \/ Before(keys, s[i], s[j])
     \/ Same(keys, s[i], s[j]) /\ s[i].id < s[j].id
IsSortOf(keys, input, s) ==
  /\ Len(s) = Len(input)
  /\ LinesOf(s) = LinesOf(input)
  /\ IsOrdered(keys, s)
IsUniqSortOf(keys, input, s) ==
  /\ LinesOf(s) =
       {x \in LinesOf(input) : ~ \E y \in LinesOf(input) : Same(keys, x, y) /\ y.id < x.id}
  /\ IsOrdered(keys, s)
  /\ Len(s) = Cardinality(LinesOf(s))
Meaning(keys, uniq, input, s) ==
  IF uniq THEN IsUniqSortOf(keys, input, s) ELSE IsSortOf(keys, input, s)
=============================================================================
