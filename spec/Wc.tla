---------------------------------- MODULE Wc ----------------------------------
(***************************************************************************)
(* cdx wc (src/bin/cdx/wc_main.rs): per file, or per named column, the number *)
(* of lines, bytes, characters and words, and the totals over all of them.    *)
(* A file is [h, names, rows]; a cell is a sequence of characters given by    *)
(* their length in bytes, 0 standing for a space.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLines, MaxCell, Chars
VARIABLES files, kind, f, r, acc, rows, tot, phase
vars == <<files, kind, f, r, acc, rows, tot, phase>>
Given == ndJsonDeserialize("given.ndjson")
Cell == UNION {[1..n -> Chars] : n \in 0..MaxCell}
\* least and most: the fewest and the most characters of one line or cell; least is -1 while there is none
Zero == [lines |-> 0, bytes |-> 0, chars |-> 0, words |-> 0, least |-> -1, most |-> 0]
Start(fs, k) == /\ files = fs /\ kind = k /\ f = 1 /\ r = 1
                /\ acc = IF k = "lines" THEN <<[name |-> <<>>, c |-> Zero]>> ELSE <<>>
                /\ rows = <<>> /\ tot = Zero /\ phase = "open"
Init == \/ \E n \in 0..MaxLines : \E cs \in [1..n -> Cell], k \in {"lines", "columns"} :
             Start(<<[h |-> TRUE, names |-> <<<<1>>>>, rows |-> [i \in 1..n |-> <<cs[i]>>]]>>, k)
        \/ \E n \in 1..Len(Given) : Start(Given[n].files, Given[n].kind)

\* ------------------------- the code's way ---------------------------------
RECURSIVE Bytes(_)
Bytes(s) == IF s = <<>> THEN 0 ELSE (IF Head(s) = 0 THEN 1 ELSE Head(s)) + Bytes(Tail(s))
\* words, scanning with "was the last character a space"
RECURSIVE Scan(_, _)
Scan(s, space) == IF s = <<>> THEN 0
                  ELSE IF Head(s) = 0 THEN Scan(Tail(s), TRUE)
                  ELSE (IF space THEN 1 ELSE 0) + Scan(Tail(s), FALSE)
RECURSIVE Join(_)
Join(cs) == IF Len(cs) = 1 THEN cs[1] ELSE cs[1] \o <<0>> \o Join(Tail(cs))
Add(c, s) == [lines |-> c.lines + 1, bytes |-> c.bytes + Bytes(s), chars |-> c.chars + Len(s), words |-> c.words + Scan(s, TRUE),
              least |-> IF c.least < 0 \/ Len(s) < c.least THEN Len(s) ELSE c.least,
              most |-> IF Len(s) > c.most THEN Len(s) ELSE c.most]
Plus(a, b) == [lines |-> a.lines + b.lines, bytes |-> a.bytes + b.bytes, chars |-> a.chars + b.chars, words |-> a.words + b.words, least |-> -1, most |-> 0]
IsEmpty(x) == ~x.h /\ x.rows = <<>>
Pos(a, name) == IF \E i \in 1..Len(a) : a[i].name = name THEN CHOOSE i \in 1..Len(a) : a[i].name = name ELSE 0
RECURSIVE Enter(_, _)
Enter(a, names) == IF names = <<>> THEN a
                   ELSE Enter(IF Pos(a, Head(names)) = 0 THEN Append(a, [name |-> Head(names), c |-> Zero]) ELSE a, Tail(names))
Open == /\ phase = "open" /\ f <= Len(files)
        /\ acc' = IF kind = "columns" /\ ~IsEmpty(files[f]) THEN Enter(acc, files[f].names) ELSE acc
        /\ r' = 1 /\ phase' = "line" /\ UNCHANGED <<files, kind, f, rows, tot>>
RECURSIVE Row(_, _, _, _)
Row(a, names, cells, i) == IF i > Len(cells) \/ i > Len(names) THEN a
                           ELSE Row([a EXCEPT ![Pos(a, names[i])].c = Add(@, cells[i])], names, cells, i + 1)
Line == /\ phase = "line" /\ r <= Len(files[f].rows)
        /\ acc' = IF kind = "columns" THEN Row(acc, files[f].names, files[f].rows[r], 1)
                  ELSE <<[name |-> <<>>, c |-> Add(acc[1].c, Append(Join(files[f].rows[r]), 0))]>>   \* with its newline
        /\ r' = r + 1 /\ UNCHANGED <<files, kind, f, rows, tot, phase>>
EndFile == /\ phase = "line" /\ r > Len(files[f].rows)
           /\ IF kind = "lines" /\ files[f].rows # <<>>
              THEN /\ rows' = Append(rows, [of |-> f, name |-> <<>>, c |-> acc[1].c])
                   /\ tot' = Plus(tot, acc[1].c) /\ acc' = <<[name |-> <<>>, c |-> Zero]>>
              ELSE UNCHANGED <<rows, tot, acc>>
           /\ f' = f + 1 /\ phase' = "open" /\ UNCHANGED <<files, kind, r>>
RECURSIVE Sum(_)
Sum(a) == IF a = <<>> THEN Zero ELSE Plus(Head(a).c, Sum(Tail(a)))
Finish == /\ phase = "open" /\ f > Len(files) /\ phase' = "done"
          /\ IF kind = "columns"
             THEN rows' = [i \in 1..Len(acc) |-> [of |-> 0, name |-> acc[i].name, c |-> acc[i].c]] /\ tot' = Sum(acc)
             ELSE UNCHANGED <<rows, tot>>
          /\ UNCHANGED <<files, kind, f, r, acc>>
Next == Open \/ Line \/ EndFile \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------- meaning --------------------------------
WordStarts(s) == {i \in 1..Len(s) : s[i] # 0 /\ (i = 1 \/ s[i - 1] = 0)}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* the text of a file as one sequence, lines ended by a newline (a space)
Text(k) == Flat([i \in 1..Len(files[k].rows) |-> Append(Join(files[k].rows[i]), 0)])
LinesRight == (phase = "done" /\ kind = "lines") =>
  /\ {rows[i].of : i \in 1..Len(rows)} = {k \in 1..Len(files) : files[k].rows # <<>>}
  /\ \A i, j \in 1..Len(rows) : i < j => rows[i].of < rows[j].of
  /\ \A i \in 1..Len(rows) : LET k == rows[i].of
                                 t == Text(k)
                                 w == {Len(Join(files[k].rows[j])) + 1 : j \in 1..Len(files[k].rows)}
                             IN rows[i].c = [lines |-> Len(files[k].rows), bytes |-> Bytes(t), chars |-> Len(t), words |-> Cardinality(WordStarts(t)),
                                             least |-> CHOOSE x \in w : \A y \in w : x <= y, most |-> CHOOSE x \in w : \A y \in w : x >= y]
\* all cells under a name, in any file
CellsOf(name) == {<<k, i, j>> \in (1..Len(files)) \X (1..12) \X (1..6) :
                    i <= Len(files[k].rows) /\ j <= Len(files[k].rows[i]) /\ j <= Len(files[k].names) /\ files[k].names[j] = name}
RECURSIVE Total(_, _)
Total(S, m) == IF S = {} THEN 0
               ELSE LET x == CHOOSE x \in S : TRUE
                        s == files[x[1]].rows[x[2]][x[3]]
                    IN (CASE m = 1 -> 1 [] m = 2 -> Bytes(s) [] m = 3 -> Len(s) [] OTHER -> Cardinality(WordStarts(s))) + Total(S \ {x}, m)
ColumnsRight == (phase = "done" /\ kind = "columns") => \A i \in 1..Len(rows) :
  LET S == CellsOf(rows[i].name)
      w == {Len(files[x[1]].rows[x[2]][x[3]]) : x \in S}
  IN rows[i].c = [lines |-> Total(S, 1), bytes |-> Total(S, 2), chars |-> Total(S, 3), words |-> Total(S, 4),
                  least |-> IF S = {} THEN -1 ELSE CHOOSE x \in w : \A y \in w : x <= y,
                  most |-> IF S = {} THEN 0 ELSE CHOOSE x \in w : \A y \in w : x >= y]
TotalRight == phase = "done" => tot = Sum(rows)
Terminates == <>(phase = "done")
Emit == phase = "done" => PrintT(ToJson([files |-> files, kind |-> kind, rows |-> rows, tot |-> tot]))
=============================================================================
