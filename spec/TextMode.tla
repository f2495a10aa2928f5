------------------------------- MODULE TextMode -------------------------------
(***************************************************************************)
(* How a text file becomes rows of values and how rows become a text file,    *)
(* under --text-in and --text-out (src/util.rs TextFileMode, src/column.rs).   *)
(* A mode is [q, d, e, r]: quoting p plain, q double quotes, b backslashes;    *)
(* the column delimiter, the line delimiter, and what the plain writer puts in *)
(* place of them. Bytes are numbers. The reader takes one byte at a time; the   *)
(* writer writes the chosen columns of one row at a time; then what has been    *)
(* written is read again, in the mode it was written in.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Alphabet, NCols
VARIABLES src, bytes, mode, pos, inq, esc, val, row, raw, got, raws, first, w, phase
vars == <<src, bytes, mode, pos, inq, esc, val, row, raw, got, raws, first, w, phase>>
Given == ndJsonDeserialize("given.ndjson")
Quote == 34
Slash == 92
Unslash(c) == CASE c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c
Enslash(c) == CASE c = 10 -> 110 [] c = 13 -> 114 [] c = 9 -> 116 [] OTHER -> c
Has(v, c) == \E i \in 1..Len(v) : v[i] = c
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Map(v, F(_)) == Flat([i \in 1..Len(v) |-> F(v[i])])

\* ------------------------------ writing a value ---------------------------
Dbl(c) == IF c = Quote THEN <<Quote, Quote>> ELSE <<c>>
Between(v) == <<Quote>> \o Map(v, Dbl) \o <<Quote>>
Plain(v, m) == Map(v, LAMBDA c : <<IF c \in {m.d, m.e} THEN m.r ELSE c>>)
Enc(v, m) == CASE m.q = "p" -> Plain(v, m)
               [] m.q = "q" -> IF Has(v, m.d) \/ Has(v, m.e) \/ (v # <<>> /\ v[1] = Quote) THEN Between(v) ELSE Map(v, Dbl)
               [] OTHER -> Map(v, LAMBDA c : IF c \in {m.d, m.e, Slash} THEN <<Slash, Enslash(c)>> ELSE <<c>>)
\* other programs quote or escape more than they need to
Full(v, m) == CASE m.q = "p" -> v
                [] m.q = "q" -> Between(v)
                [] OTHER -> Map(v, LAMBDA c : IF c \in {110, 114, 116} THEN <<c>> ELSE <<Slash, Enslash(c)>>)
RECURSIVE Join(_, _)
Join(vs, d) == IF Len(vs) = 1 THEN vs[1] ELSE vs[1] \o <<d>> \o Join(Tail(vs), d)
EncRow(rw, m, full) == Join([i \in 1..Len(rw) |-> IF full THEN Full(rw[i], m) ELSE Enc(rw[i], m)], m.d)
\* what can be said in a mode at all
Sayable(rows, m) == m.q = "p" => \A i \in 1..Len(rows) : \A j \in 1..Len(rows[i]) : ~Has(rows[i][j], m.d) /\ ~Has(rows[i][j], m.e)
Text(s) == LET ls == [i \in 1..Len(s.rows) |-> EncRow(s.rows[i], s.im, s.full)]
               all == Flat([i \in 1..Len(ls) |-> Append(ls[i], s.im.e)])
           IN IF s.open /\ all # <<>> THEN SubSeq(all, 1, Len(all) - 1) ELSE all
\* an empty last line without its delimiter is no line
Intended(s) == LET n == Len(s.rows)
               IN IF s.open /\ n > 0 /\ EncRow(s.rows[n], s.im, s.full) = <<>> THEN SubSeq(s.rows, 1, n - 1) ELSE s.rows

Begin(s) == /\ src = s /\ bytes = Text(s) /\ mode = s.im /\ pos = 1 /\ inq = FALSE /\ esc = FALSE /\ val = <<>> /\ row = <<>> /\ raw = <<>>
            /\ got = <<>> /\ raws = <<>> /\ first = <<>> /\ w = <<>> /\ phase = "read"
Vals == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Ms == {[q |-> q, d |-> 44, e |-> 10, r |-> 95] : q \in {"p", "q", "b"}}
Cols == [i \in 1..NCols |-> NCols + 1 - i]
Init == \/ \E rw \in [1..NCols -> Vals], im, om \in Ms, f \in BOOLEAN :
             /\ Sayable(<<rw>>, im)
             /\ Begin([rows |-> <<rw>>, im |-> im, om |-> om, full |-> f, open |-> f, cols |-> Cols, key |-> 1])
        \/ \E n \in 1..Len(Given) : Sayable(Given[n].rows, Given[n].im) /\ Begin(Given[n])

\* ------------------------------ the reader --------------------------------
Reading == phase \in {"read", "reread"}
Eol == /\ got' = Append(got, Append(row, val)) /\ raws' = Append(raws, Append(raw, mode.e))
       /\ val' = <<>> /\ row' = <<>> /\ raw' = <<>>
Same == UNCHANGED <<src, bytes, mode, first, w, phase>>
Byte == /\ Reading /\ pos <= Len(bytes) /\ Same
        /\ LET c == bytes[pos]
               again == pos < Len(bytes) /\ bytes[pos + 1] = Quote
           IN IF esc
              THEN /\ val' = Append(val, Unslash(c)) /\ esc' = FALSE /\ pos' = pos + 1 /\ raw' = Append(raw, c) /\ UNCHANGED <<inq, row, got, raws>>
              ELSE IF mode.q = "b" /\ c = Slash
              THEN /\ esc' = TRUE /\ pos' = pos + 1 /\ raw' = Append(raw, c) /\ UNCHANGED <<inq, val, row, got, raws>>
              ELSE IF mode.q = "q" /\ c = Quote
              THEN IF (val # <<>> \/ inq) /\ again
                   THEN /\ val' = Append(val, Quote) /\ pos' = pos + 2 /\ raw' = raw \o <<c, c>> /\ UNCHANGED <<inq, esc, row, got, raws>>
                   ELSE /\ inq' = ~inq /\ pos' = pos + 1 /\ raw' = Append(raw, c) /\ UNCHANGED <<esc, val, row, got, raws>>
              ELSE IF c = mode.e /\ ~inq
              THEN Eol /\ pos' = pos + 1 /\ UNCHANGED <<inq, esc>>
              ELSE IF c = mode.d /\ ~inq
              THEN /\ row' = Append(row, val) /\ val' = <<>> /\ pos' = pos + 1 /\ raw' = Append(raw, c) /\ UNCHANGED <<inq, esc, got, raws>>
              ELSE /\ val' = Append(val, c) /\ pos' = pos + 1 /\ raw' = Append(raw, c) /\ UNCHANGED <<inq, esc, row, got, raws>>
\* the end of the input ends a line that has begun
LastLine == /\ Reading /\ pos > Len(bytes) /\ raw # <<>> /\ Eol /\ Same /\ UNCHANGED <<pos, inq, esc>>
EndRead == /\ phase = "read" /\ pos > Len(bytes) /\ raw = <<>> /\ phase' = "write"
           /\ first' = [rows |-> got, raws |-> raws]
           /\ UNCHANGED <<src, bytes, mode, pos, inq, esc, val, row, raw, got, raws, w>>
\* ------------------------------ the writer --------------------------------
WriteRow == /\ phase = "write" /\ got # <<>> /\ got' = Tail(got)
            /\ w' = w \o EncRow([i \in 1..Len(src.cols) |-> Head(got)[src.cols[i]]], src.om, FALSE) \o <<src.om.e>>
            /\ UNCHANGED <<src, bytes, mode, pos, inq, esc, val, row, raw, raws, first, phase>>
EndWrite == /\ phase = "write" /\ got = <<>> /\ phase' = "reread" /\ bytes' = w /\ mode' = src.om /\ pos' = 1 /\ raws' = <<>>
            /\ UNCHANGED <<src, inq, esc, val, row, raw, got, first, w>>
Done == /\ phase = "reread" /\ pos > Len(bytes) /\ raw = <<>> /\ phase' = "done"
        /\ UNCHANGED <<src, bytes, mode, pos, inq, esc, val, row, raw, got, raws, first, w>>
Next == Byte \/ LastLine \/ EndRead \/ WriteRow \/ EndWrite \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------- meaning ---------------------------------
Chosen(rows) == [i \in 1..Len(rows) |-> [j \in 1..Len(src.cols) |-> rows[i][src.cols[j]]]]
Repl(rows) == [i \in 1..Len(rows) |-> [j \in 1..Len(rows[i]) |-> IF src.om.q = "p" THEN Plain(rows[i][j], src.om) ELSE rows[i][j]]]
\* exactly the values that were said
ReadRight == phase = "done" => first.rows = Intended(src)
\* lines taken verbatim make up the input
RawRight == phase = "done" => Flat(first.raws) = (IF src.open /\ Intended(src) = src.rows /\ src.rows # <<>> THEN Append(Text(src), src.im.e) ELSE Text(src))
\* what is written can be read back
RoundTrip == phase = "done" => got = Repl(Chosen(Intended(src)))
\* nothing is escaped that need not be, so ordinary values are themselves
Ordinary(v) == \A i \in 1..Len(v) : v[i] \notin {Quote, Slash, src.om.d, src.om.e}
Verbatim == phase = "done" => ((\A i \in 1..Len(src.rows) : \A j \in 1..Len(src.rows[i]) : Ordinary(src.rows[i][j]))
              => w = Flat([i \in 1..Len(first.rows) |-> Append(Join(Chosen(first.rows)[i], src.om.d), src.om.e)]))
Terminates == <>(phase = "done")
RECURSIVE Pick(_, _)
Pick(S, i) == IF i > Len(first.raws) THEN <<>> ELSE (IF i \in S THEN first.raws[i] ELSE <<>>) \o Pick(S, i + 1)
Key(i) == first.rows[i][src.key]
\* every column written as a row
Turned == [j \in 1..(IF first.rows = <<>> THEN 0 ELSE Len(first.rows[1])) |->
             Append(EncRow([i \in 1..Len(first.rows) |-> first.rows[i][j]], src.om, FALSE), src.om.e)]
\* every line beside itself
Pasted == Flat([i \in 1..Len(first.raws) |-> SubSeq(first.raws[i], 1, Len(first.raws[i]) - 1) \o <<src.im.d>> \o first.raws[i]])
\* every row joined with itself, if the keys are in order and the lines are plain
RECURSIVE Before(_, _)
Before(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                ELSE a[1] < b[1] \/ (a[1] = b[1] /\ Before(Tail(a), Tail(b)))
Joinable == src.im.q = "p" /\ \A i \in 2..Len(first.rows) : Before(Key(i - 1), Key(i))
Others(rw) == SubSeq(rw, 1, src.key - 1) \o SubSeq(rw, src.key + 1, Len(rw))
Joined == Flat([i \in 1..Len(first.rows) |-> Append(Join(first.rows[i] \o Others(first.rows[i]), src.om.d), 10)])
Emit == phase = "done" => PrintT(ToJson([src |-> src, text |-> Text(src), w |-> w, n |-> Len(first.rows),
          equal |-> Pick({i \in 1..Len(first.rows) : Key(i) = Key(1)}, 1),
          unequal |-> Pick({i \in 1..Len(first.rows) : Key(i) # Key(1)}, 1),
          groups |-> Pick({i \in 1..Len(first.rows) : i = 1 \/ Key(i) # Key(i - 1)}, 1),
          all |-> Flat(first.raws), turned |-> Turned, pasted |-> Pasted,
          joinable |-> Joinable, joined |-> IF Joinable THEN Joined ELSE <<>>]))
=============================================================================
