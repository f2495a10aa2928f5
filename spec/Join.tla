-------------------------------- MODULE Join --------------------------------
(***************************************************************************)
(* Joiner::join_quick of src/join.rs: two files sorted on the key, one        *)
(* cursor in each.  A line is its key rank.  The second file never repeats    *)
(* a key; the first may.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Ranks
VARIABLES f1, f2, i, j, out, no1, no2, phase
vars == <<f1, f2, i, j, out, no1, no2, phase>>

Sorted(s) == \A n \in 1..Len(s) - 1 : s[n] <= s[n + 1]
Strict(s) == \A n \in 1..Len(s) - 1 : s[n] < s[n + 1]
Files(n) == UNION {[1..k -> Ranks] : k \in 0..n}
Given == ndJsonDeserialize("given.ndjson")
Start(a, b) == /\ f1 = a /\ f2 = b /\ i = 1 /\ j = 1
               /\ out = <<>> /\ no1 = <<>> /\ no2 = <<>>
               /\ phase = IF a = <<>> \/ b = <<>> THEN "drain" ELSE "compare"
Init == \/ \E a \in {s \in Files(MaxLen) : Sorted(s)}, b \in {s \in Files(MaxLen) : Strict(s)} : Start(a, b)
        \/ \E n \in 1..Len(Given) : Start(Given[n].f1, Given[n].f2)

\* the first file has the smaller key: its line has no partner
Less == /\ phase = "compare" /\ f1[i] < f2[j]
        /\ no1' = Append(no1, i) /\ i' = i + 1
        /\ phase' = IF i = Len(f1) THEN "drain" ELSE "compare"
        /\ UNCHANGED <<f1, f2, j, out, no2>>
Greater == /\ phase = "compare" /\ f1[i] > f2[j]
           /\ no2' = Append(no2, j) /\ j' = j + 1
           /\ phase' = IF j = Len(f2) THEN "drain" ELSE "compare"
           /\ UNCHANGED <<f1, f2, i, out, no1>>
\* a match: the partner is dropped once the first file moves past its key
Equal == /\ phase \in {"compare", "group"} /\ f1[i] = f2[j]
         /\ out' = Append(out, <<i, j>>) /\ i' = i + 1
         /\ IF i = Len(f1) THEN phase' = "drain" /\ j' = j + 1
                           ELSE phase' = "group" /\ j' = j
         /\ UNCHANGED <<f1, f2, no1, no2>>
EndGroup == /\ phase = "group" /\ f1[i] # f2[j]
            /\ j' = j + 1
            /\ phase' = IF j = Len(f2) THEN "drain" ELSE "compare"
            /\ UNCHANGED <<f1, f2, i, out, no1, no2>>
Drain == /\ phase = "drain" /\ (i <= Len(f1) \/ j <= Len(f2))
         /\ IF i <= Len(f1) THEN no1' = Append(no1, i) /\ i' = i + 1 /\ UNCHANGED <<no2, j>>
                            ELSE no2' = Append(no2, j) /\ j' = j + 1 /\ UNCHANGED <<no1, i>>
         /\ UNCHANGED <<f1, f2, out, phase>>
Done == phase = "drain" /\ i > Len(f1) /\ j > Len(f2)
Next == Less \/ Greater \/ Equal \/ EndGroup \/ Drain
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------- meaning --------------------------------
Partner(n) == {m \in 1..Len(f2) : f2[m] = f1[n]}
Seq2Set(s) == {s[n] : n \in 1..Len(s)}
Ascending(s) == \A n \in 1..Len(s) - 1 : s[n] < s[n + 1]
\* every matched line of file 1 once, in file order, with its one partner
Matches == Done => /\ Seq2Set(out) = {<<n, m>> \in (1..Len(f1)) \X (1..Len(f2)) : f1[n] = f2[m]}
                   /\ \A n \in 1..Len(out) - 1 : out[n][1] < out[n + 1][1]
Unmatched == Done => /\ Seq2Set(no1) = {n \in 1..Len(f1) : Partner(n) = {}} /\ Ascending(no1)
                     /\ Seq2Set(no2) = {m \in 1..Len(f2) : \A n \in 1..Len(f1) : f1[n] # f2[m]} /\ Ascending(no2)
\* at every moment each line is in exactly one place
Partition == /\ Len(out) + Len(no1) = i - 1
             /\ Len(no2) + Cardinality({out[n][2] : n \in 1..Len(out)}) = IF phase = "group" THEN j ELSE j - 1
Terminates == <>Done
Emit == Done => PrintT(ToJson([f1 |-> f1, f2 |-> f2, out |-> out, no1 |-> no1, no2 |-> no2]))
=============================================================================
