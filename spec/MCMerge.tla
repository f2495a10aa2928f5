------------------------------- MODULE MCMerge -------------------------------
(***************************************************************************)
(* sort -m: the inputs are already sorted files; the run starts in Sort's    *)
(* merge phase.  The alternative algorithm (-A) is a tournament tree whose    *)
(* nodes remember the pending winner of each side; Tree models it, and         *)
(* TreeAgrees says the two algorithms cannot be told apart by their output.    *)
(***************************************************************************)
EXTENDS Sort
CONSTANTS MaxLines, MaxFiles, K1, K2
OneKey == {<<[col |-> 1, rev |-> r]>> : r \in BOOLEAN}
TwoKeys == {<<[col |-> c, rev |-> r], [col |-> 3 - c, rev |-> q]>> : c \in {1, 2}, r, q \in BOOLEAN}
KeyLists == IF K2 = {1} THEN OneKey ELSE TwoKeys
Lines(n) == [1..n -> {<<a, b>> : a \in K1, b \in K2}]
Cuts(n, f) == {c \in [1..f - 1 -> 0..n] : \A i \in 1..f - 2 : c[i] <= c[i + 1]}
Split(s, f, c) ==
  [i \in 1..f |-> SubSeq(s, (IF i = 1 THEN 0 ELSE c[i - 1]) + 1, IF i = f THEN Len(s) ELSE c[i])]
KeySorted(k, s) == \A i \in 1..Len(s) - 1 : ~ Before(k, s[i + 1], s[i])
Init == \E n \in 0..MaxLines : \E s \in Lines(n) : \E f \in 1..MaxFiles : \E c \in Cuts(n, f) :
          \E k \in KeyLists : \E u \in BOOLEAN :
            LET fs == Split([i \in 1..n |-> [k |-> s[i], id |-> i]], f, c)
            IN  /\ \A i \in 1..f : KeySorted(k, fs[i])
                /\ input = fs /\ keys = k /\ uniq = u /\ todo = <<>> /\ buf = <<>>
                /\ runs = fs /\ out = <<>> /\ phase = "merge"
Spec == Init /\ [][MergeStep \/ MergeEnd]_vars /\ WF_vars(MergeStep \/ MergeEnd)
Terminates == <>(phase = "done")

\* ---- the tournament tree of the alternative algorithm ----
\* a tree is [leaf |-> file] or [l, r, pl, pr] with pl, pr the pending file of a side (0: none)
RECURSIVE NewTree(_)
NewTree(ns) == IF Len(ns) = 1 THEN [leaf |-> ns[1], first |-> TRUE]
               ELSE [l |-> NewTree(SubSeq(ns, 1, Len(ns) \div 2)),
                     r |-> NewTree(SubSeq(ns, Len(ns) \div 2 + 1, Len(ns))), pl |-> 0, pr |-> 0]
IsLeaf(t) == "leaf" \in DOMAIN t
RECURSIVE TNext(_, _)
\* returns [t, fs, w]: new tree, files with consumed lines dropped, winning file or 0
TNext(t, fs) ==
  IF IsLeaf(t)
  THEN IF fs[t.leaf] = <<>> THEN [t |-> t, fs |-> fs, w |-> 0]
       ELSE LET g == IF t.first THEN fs ELSE [fs EXCEPT ![t.leaf] = Tail(@)]
            IN  [t |-> [t EXCEPT !.first = FALSE], fs |-> g, w |-> IF g[t.leaf] = <<>> THEN 0 ELSE t.leaf]
  ELSE LET a == IF t.pl = 0 THEN TNext(t.l, fs) ELSE [t |-> t.l, fs |-> fs, w |-> t.pl]
           b == IF t.pr = 0 THEN TNext(t.r, a.fs) ELSE [t |-> t.r, fs |-> a.fs, w |-> t.pr]
           goRight == \/ a.w = 0
                      \/ b.w # 0 /\ Before(keys, b.fs[b.w][1], b.fs[a.w][1])
           nt == [l |-> a.t, r |-> b.t, pl |-> IF goRight THEN a.w ELSE 0, pr |-> IF goRight THEN 0 ELSE b.w]
       IN  [t |-> nt, fs |-> b.fs, w |-> IF goRight THEN b.w ELSE a.w]
RECURSIVE TreeRun(_, _, _)
TreeRun(t, fs, o) ==
  LET n == TNext(t, fs)
  IN  IF n.w = 0 THEN o
      ELSE LET x == n.fs[n.w][1]
           IN  TreeRun(n.t, n.fs, IF uniq /\ o # <<>> /\ Same(keys, o[Len(o)], x) THEN o ELSE Append(o, x))
Tree == TreeRun(NewTree([i \in 1..Len(input) |-> i]), input, <<>>)
TreeAgrees == phase = "done" => Tree = out

Emit == phase = "done" =>
           PrintT(ToJson([files |-> [i \in 1..Len(input) |-> [j \in 1..Len(input[i]) |-> input[i][j].k]],
                          keys |-> keys, uniq |-> uniq, out |-> [i \in 1..Len(out) |-> out[i].id]]))
=============================================================================
