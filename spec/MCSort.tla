------------------------------- MODULE MCSort -------------------------------
EXTENDS Sort
CONSTANTS MaxLines, MaxFiles, K1, K2, MaxRuns
OneKey == {<<[col |-> 1, rev |-> r]>> : r \in BOOLEAN}
TwoKeys == {<<[col |-> c, rev |-> r], [col |-> 3 - c, rev |-> q]>> : c \in {1, 2}, r, q \in BOOLEAN}
KeyLists == IF K2 = {1} THEN OneKey ELSE TwoKeys
Lines(n) == {s \in [1..n -> [k : {<<a, b>> : a \in K1, b \in K2}]] : TRUE}
WithIds(s) == [i \in 1..Len(s) |-> [k |-> s[i].k, id |-> i]]
\* ways to cut a sequence of n lines into f files, given by f-1 non-decreasing cut points
Cuts(n, f) == {c \in [1..f - 1 -> 0..n] : \A i \in 1..f - 2 : c[i] <= c[i + 1]}
Split(s, f, c) ==
  [i \in 1..f |-> SubSeq(s, (IF i = 1 THEN 0 ELSE c[i - 1]) + 1, IF i = f THEN Len(s) ELSE c[i])]
Init == \E n \in 0..MaxLines : \E s \in Lines(n) : \E f \in 1..MaxFiles : \E c \in Cuts(n, f) :
          \E k \in KeyLists : \E u \in BOOLEAN : Start(Split(WithIds(s), f, c), k, u)
Bound == Len(runs) <= MaxRuns
Emit == (phase = "done" /\ runs = <<>>) =>
           PrintT(ToJson([files |-> [i \in 1..Len(input) |-> [j \in 1..Len(input[i]) |-> input[i][j].k]],
                          keys |-> keys, uniq |-> uniq, out |-> [i \in 1..Len(out) |-> out[i].id]]))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(phase = "done")
=============================================================================
