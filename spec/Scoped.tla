------------------------------- MODULE Scoped -------------------------------
(***************************************************************************)
(* The library's values per column (ScopedValues) and the calls of ColumnSet  *)
(* that pick columns out of a line of any length (src/column.rs).  Column     *)
(* sets are those of Columns.tla.  A piece is a value (its name, a number)    *)
(* and the columns it is for; they are resolved one after the other.  files   *)
(* is the one list of names, f the next piece, res the value of each column   *)
(* so far (<<0>>: the default).                                               *)
(***************************************************************************)
EXTENDS Columns
CONSTANTS MaxPieces, Size, Lens
VARIABLE len                                      \* length of the line columns are picked from
svars == <<vars, len>>
SInit == /\ \/ \E n \in Widths : Start(<<Cols(n)>>, <<>>, "fail", TRUE)
            \/ \E n \in Widths : \E m \in 1..MaxPieces : n + m <= Size /\ \E s \in [1..m -> Items(n)] : \E val \in [1..Len(s) -> 1..2] :
                 Start(<<Cols(n)>>, [j \in 1..Len(s) |-> [kind |-> "s", name |-> <<val[j]>>, items |-> <<s[j]>>]], "fail", TRUE)
            \/ \E n \in 1..Len(Given) : Start(Given[n].files, Given[n].pieces, "fail", TRUE)
         /\ len \in (IF Len(pieces) = 1 THEN Lens ELSE {0})
Names1 == files[1]
Now == IF res = <<>> THEN [i \in 1..Len(Names1) |-> <<0>>] ELSE res
Resolve ==
  /\ phase = "file" /\ f <= Len(pieces)
  /\ LET r == Lookup(Names1, pieces[f].items) IN
     IF Broken(r) \/ \E i \in 1..Len(r) : r[i].col > Len(Names1) THEN phase' = "failed" /\ UNCHANGED <<f, res>>
     ELSE /\ res' = [i \in 1..Len(Names1) |-> IF \E j \in 1..Len(r) : r[j].col = i THEN pieces[f].name ELSE Now[i]]
          /\ f' = f + 1 /\ UNCHANGED phase
  /\ UNCHANGED <<files, pieces, dups, heads, len>>
Finish == /\ phase = "file" /\ f > Len(pieces)
          /\ res' = Now /\ phase' = "done"
          /\ UNCHANGED <<files, pieces, dups, heads, f, len>>
SSpec == SInit /\ [][Resolve \/ Finish]_svars /\ WF_svars(Resolve \/ Finish)

\* ------------------------------- meaning --------------------------------
For(i) == {p \in 1..Len(pieces) : \E k \in 1..Len(Means(Names1, pieces[p].items)) : Means(Names1, pieces[p].items)[k] = i}
\* the value of a column is the last one given for it
LastCounts == phase = "done" =>
                \A i \in 1..Len(Names1) : res[i] = (IF For(i) = {} THEN <<0>> ELSE LET m == CHOOSE x \in For(i) : \A y \in For(i) : y <= x IN pieces[m].name)
\* what is picked from a line: columns that the line does not have are missing (0)
Pick == LET m == Means(Names1, pieces[1].items) IN [i \in 1..Len(m) |-> IF m[i] <= len THEN m[i] ELSE 0]
SFails == phase = "failed" => \E p \in 1..Len(pieces), k \in 1..20 :
             k <= Len(pieces[p].items) /\ (Covers(Names1, pieces[p].items[k]) \ (1..Len(Names1)) # {} \/ (Covers(Names1, pieces[p].items[k]) = {} /\ pieces[p].items[k].kind # "match"))
STerminates == <>(phase # "file")
SEmit == phase # "file" => PrintT(ToJson([names |-> Names1, pieces |-> pieces, ok |-> phase = "done", res |-> res, len |-> len,
                                          pick |-> IF phase = "done" /\ Len(pieces) = 1 THEN Pick ELSE <<>>,
                                          cols |-> IF phase = "done" /\ Len(pieces) = 1 THEN Means(Names1, pieces[1].items) ELSE <<>>]))
=============================================================================
