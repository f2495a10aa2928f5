------------------------------- MODULE Reading --------------------------------
(***************************************************************************)
(* Opening and reading an input (src/util.rs get_reader, peek_start,           *)
(* TextFileMode::read_header, read_line): the input arrives in pieces of any    *)
(* size, is recognised as gzip (one or more members) by its first three bytes,  *)
(* as having a header by the first four bytes of its content, and is read line   *)
(* by line. The pieces it arrives in, and the members it is compressed as, must  *)
(* not show.                                                                     *)
(* Tokens: 1..4 the start of a header, 5 newline, 6 a letter, 7 tab,             *)
(* 8 9 10 the start of a gzip member, 11 the end of one.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxPlain, MaxZip, PlainTokens, ZipTokens
VARIABLES src, cuts, avail, zip, used, dec, zst, start, hdr, text, line, head, lines, phase
vars == <<src, cuts, avail, zip, used, dec, zst, start, hdr, text, line, head, lines, phase>>
Given == ndJsonDeserialize("given.ndjson")
Magic == <<8, 9, 10>>
HeadStart == <<1, 2, 3, 4>>
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Range(s) == {s[i] : i \in 1..Len(s)}
Begin(s, c) == /\ src = s /\ cuts = c /\ avail = 0 /\ zip = "unknown" /\ used = 0 /\ dec = <<>> /\ zst = 0 /\ start = <<>> /\ hdr = "unknown"
               /\ text = 0 /\ line = <<>> /\ head = <<>> /\ lines = <<>> /\ phase = "open"
Seqs(T, n) == UNION {[1..k -> T] : k \in 0..n}
\* content s compressed with members ending after the positions in m
RECURSIVE Members(_, _, _)
Members(s, m, i) == IF i > Len(s) THEN <<>>
                    ELSE (IF i = 1 \/ (i - 1) \in m THEN Magic ELSE <<>>) \o <<s[i]>> \o (IF i = Len(s) \/ i \in m THEN <<11>> ELSE <<>>) \o Members(s, m, i + 1)
Zipped(s, m) == IF s = <<>> THEN Magic \o <<11>> ELSE Members(s, m, 1)
Init == \/ \E s \in Seqs(PlainTokens, MaxPlain) : \E c \in SUBSET (1..(IF Len(s) < 2 THEN 0 ELSE Len(s) - 1)) : Begin(s, c)
        \/ \E s \in Seqs(ZipTokens, MaxZip) : \E m \in SUBSET (1..(IF Len(s) < 2 THEN 0 ELSE Len(s) - 1)) :
             \E z \in {Zipped(s, m), SubSeq(Zipped(s, m), 1, Len(Zipped(s, m)) - 1)}, c \in {{}, {1}, {2}, {3}, {1, 2, 3, 4, 5}} : Begin(z, c)
        \/ \E n \in 1..Len(Given) : Begin(Given[n].src, Range(Given[n].cuts))

\* ------------------------- the pieces it arrives in ------------------------
Ends == {i \in cuts : i > avail /\ i < Len(src)} \cup {Len(src)}
Piece == CHOOSE e \in Ends : \A x \in Ends : e <= x
Eof == avail = Len(src)
Arrive == /\ avail < Len(src) /\ avail' = Piece
          /\ UNCHANGED <<src, cuts, zip, used, dec, zst, start, hdr, text, line, head, lines, phase>>

\* ------------------------- recognising what it is --------------------------
Seen == SubSeq(src, 1, avail)
\* still could become compressed or have a header
Unclear(s) == Len(s) < 4 /\ (IsPrefix(s, Magic) \/ IsPrefix(s, HeadStart))
Sniff == /\ zip = "unknown" /\ phase = "open" /\ (Eof \/ ~Unclear(Seen))
         /\ zip' = IF IsPrefix(Magic, Seen) THEN "yes" ELSE "no"
         /\ UNCHANGED <<src, cuts, avail, used, dec, zst, start, hdr, text, line, head, lines, phase>>
\* one token of the source becomes content, or (compressed) drives the decompressor:
\* zst 0..2 tokens of a member's start seen, 3 inside a member
Feed == /\ zip # "unknown" /\ phase \in {"open", "read"} /\ used < avail /\ used' = used + 1
        /\ LET t == src[used + 1]
           IN IF zip = "no" THEN dec' = Append(dec, t) /\ UNCHANGED <<zst, phase>>
              ELSE IF zst < 3 THEN /\ dec' = dec
                                   /\ IF t = Magic[zst + 1] THEN zst' = zst + 1 /\ phase' = phase ELSE phase' = "failed" /\ zst' = zst
              ELSE IF t = 11 THEN zst' = 0 /\ UNCHANGED <<dec, phase>>
              ELSE dec' = Append(dec, t) /\ UNCHANGED <<zst, phase>>
        /\ UNCHANGED <<src, cuts, avail, zip, start, hdr, text, line, head, lines>>
\* a member that does not end
Truncated == /\ zip = "yes" /\ phase \in {"open", "read"} /\ Eof /\ used = avail /\ zst # 0 /\ phase' = "failed"
             /\ UNCHANGED <<src, cuts, avail, zip, used, dec, zst, start, hdr, text, line, head, lines>>
DecEof == Eof /\ used = avail /\ (zip = "no" \/ (zip = "yes" /\ zst = 0))
Decide == /\ phase = "open" /\ zip # "unknown" /\ (DecEof \/ ~Unclear(dec)) /\ (DecEof \/ dec # <<>>)
          /\ hdr' = IF IsPrefix(HeadStart, dec) THEN "yes" ELSE "no"
          /\ phase' = "read"
          /\ UNCHANGED <<src, cuts, avail, zip, used, dec, zst, start, text, line, head, lines>>
\* ------------------------------ line by line -------------------------------
Put(l) == IF hdr = "yes" /\ head = <<>> THEN head' = l /\ lines' = lines ELSE lines' = Append(lines, l) /\ head' = head
Take == /\ phase = "read" /\ text < Len(dec) /\ text' = text + 1
        /\ IF dec[text + 1] = 5 THEN Put(Append(line, 5)) /\ line' = <<>> ELSE line' = Append(line, dec[text + 1]) /\ UNCHANGED <<head, lines>>
        /\ UNCHANGED <<src, cuts, avail, zip, used, dec, zst, start, hdr, phase>>
Finish == /\ phase = "read" /\ text = Len(dec) /\ DecEof /\ phase' = "done"
          /\ IF line # <<>> THEN Put(Append(line, 5)) ELSE UNCHANGED <<head, lines>>
          /\ line' = <<>>
          /\ UNCHANGED <<src, cuts, avail, zip, used, dec, zst, start, hdr, text>>
\* the reader runs ahead of the source or behind it: interleavings of Arrive, Feed and Take are free,
\* but reading before arriving keeps the space small without hiding a decision
Work == Sniff \/ Feed \/ Truncated \/ Decide \/ Take \/ Finish
Next == Work \/ (~ENABLED Work /\ Arrive)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* every interleaving, for the thorough run
FreeSpec == Init /\ [][Work \/ Arrive]_vars /\ WF_vars(Work \/ Arrive)

\* ------------------------------- meaning -----------------------------------
\* a function of the bytes alone
RECURSIVE Unzip(_, _, _)
Unzip(s, i, in) == IF i > Len(s) THEN [ok |-> ~in, c |-> <<>>]
                   ELSE IF in THEN (IF s[i] = 11 THEN Unzip(s, i + 1, FALSE) ELSE LET u == Unzip(s, i + 1, TRUE) IN [u EXCEPT !.c = <<s[i]>> \o @])
                   ELSE IF i + 2 <= Len(s) /\ SubSeq(s, i, i + 2) = Magic THEN Unzip(s, i + 3, TRUE)
                   ELSE [ok |-> FALSE, c |-> <<>>]
Content == IF IsPrefix(Magic, src) THEN Unzip(src, 1, FALSE) ELSE [ok |-> TRUE, c |-> src]
RECURSIVE SplitLines(_, _)
SplitLines(s, cur) == IF s = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<Append(cur, 5)>>)
                      ELSE IF Head(s) = 5 THEN <<Append(cur, 5)>> \o SplitLines(Tail(s), <<>>)
                      ELSE SplitLines(Tail(s), Append(cur, Head(s)))
Right == phase = "done" => LET all == SplitLines(Content.c, <<>>)
                           IN /\ Content.ok
                              /\ IF IsPrefix(HeadStart, Content.c) THEN head = all[1] /\ lines = Tail(all) ELSE head = <<>> /\ lines = all
FailRight == phase = "failed" => ~Content.ok
\* a decision once taken is never wrong, and lines once read never change
Settled == /\ (zip = "yes" => IsPrefix(Magic, src)) /\ (zip = "no" => ~IsPrefix(Magic, src))
           /\ (Content.ok /\ hdr # "unknown" => (hdr = "yes") = IsPrefix(HeadStart, Content.c))
Terminates == <>(phase \in {"done", "failed"})
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o Sorted(S \ {m})
Emit == phase \in {"done", "failed"} => PrintT(ToJson([src |-> src, cuts |-> Sorted(cuts), zip |-> zip, content |-> Content.c, head |-> head, lines |-> lines, ok |-> phase = "done"]))
=============================================================================
