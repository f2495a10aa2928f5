------------------------------ MODULE SortCheck ------------------------------
(***************************************************************************)
(* sort -c / -C N: walk each file, compare adjacent lines, report up to N     *)
(* faults, succeed only if there was none.  Keys are compared like in Sort.   *)
(***************************************************************************)
EXTENDS SortCore, Json
CONSTANTS MaxLines, MaxFiles, K1, K2, Limits
VARIABLES input, keys, uniq, limit,
          f, l,        \* current file, current line in it
          faults,      \* faults found so far: sequence of <<file, line>>
          phase
vars == <<input, keys, uniq, limit, f, l, faults, phase>>
OneKey == {<<[col |-> 1, rev |-> r]>> : r \in BOOLEAN}
TwoKeys == {<<[col |-> c, rev |-> r], [col |-> 3 - c, rev |-> q]>> : c \in {1, 2}, r, q \in BOOLEAN}
KeyLists == IF K2 = {1} THEN OneKey ELSE TwoKeys
Lines(n) == [1..n -> {<<a, b>> : a \in K1, b \in K2}]
Cuts(n, fc) == {c \in [1..fc - 1 -> 0..n] : \A i \in 1..fc - 2 : c[i] <= c[i + 1]}
Split(s, fc, c) ==
  [i \in 1..fc |-> SubSeq(s, (IF i = 1 THEN 0 ELSE c[i - 1]) + 1, IF i = fc THEN Len(s) ELSE c[i])]
Init == \E n \in 0..MaxLines : \E s \in Lines(n) : \E fc \in 1..MaxFiles : \E c \in Cuts(n, fc) :
          \E k \in KeyLists : \E u \in BOOLEAN : \E m \in Limits :
            /\ input = Split([i \in 1..n |-> [k |-> s[i], id |-> i]], fc, c)
            /\ keys = k /\ uniq = u /\ limit = m /\ f = 1 /\ l = 1 /\ faults = <<>> /\ phase = "run"
Bad(a, b) == Before(keys, b, a) \/ (uniq /\ Same(keys, a, b))
NextFile == /\ phase = "run" /\ f <= Len(input) /\ l >= Len(input[f])
            /\ f' = f + 1 /\ l' = 1 /\ UNCHANGED <<input, keys, uniq, limit, faults, phase>>
Step == /\ phase = "run" /\ f <= Len(input) /\ l < Len(input[f])
        /\ LET bad == Bad(input[f][l], input[f][l + 1])
               nf == IF bad THEN Append(faults, <<f, l + 1>>) ELSE faults
           IN  /\ faults' = nf
               /\ IF bad /\ Len(nf) >= limit
                  THEN f' = f + 1 /\ l' = 1     \* give up on this file
                  ELSE f' = f /\ l' = l + 1
        /\ UNCHANGED <<input, keys, uniq, limit, phase>>
Stop == phase = "run" /\ f > Len(input) /\ phase' = "done" /\ UNCHANGED <<input, keys, uniq, limit, f, l, faults>>
Spec == Init /\ [][NextFile \/ Step \/ Stop]_vars
\* success exactly when every file, taken alone, is in order
InOrder(s) == \A i, j \in 1..Len(s) : i < j => ~ Bad(s[i], s[j])
Verdict == phase = "done" => (faults = <<>>) = (\A i \in 1..Len(input) : InOrder(input[i]))
FaultsReal == \A i \in 1..Len(faults) : Bad(input[faults[i][1]][faults[i][2] - 1], input[faults[i][1]][faults[i][2]])
Emit == phase = "done" =>
           PrintT(ToJson([files |-> [i \in 1..Len(input) |-> [j \in 1..Len(input[i]) |-> input[i][j].k]],
                          keys |-> keys, uniq |-> uniq, limit |-> limit, faults |-> faults]))
=============================================================================
