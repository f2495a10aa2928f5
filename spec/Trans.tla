-------------------------------- MODULE Trans ---------------------------------
(***************************************************************************)
(* Transforms of column values (src/trans.rs, and cut's field lists such as    *)
(* 2+lower+bytes,1-3): a chain of transforms is applied to one value after     *)
(* another, working in two buffers that alternate and are kept from value to    *)
(* value.                                                                       *)
(* A value is a sequence of bytes. A transform is [k, u, r]: its kind, whether  *)
(* it works on characters (utf8), and for bytes the list of ranges <<from, to>>. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxChain
VARIABLES chain, vals, n, i, cur, tmp1, tmp2, out, phase
vars == <<chain, vals, n, i, cur, tmp1, tmp2, out, phase>>
Given == ndJsonDeserialize("given.ndjson")
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Map(v, F(_)) == Flat([x \in 1..Len(v) |-> F(v[x])])

\* ------------------------------- characters --------------------------------
\* code points of a text; a byte that cannot be part of any character is the
\* replacement character; <<-1>> if it is broken in another way
RECURSIVE Chars(_)
Chars(b) == IF b = <<>> THEN <<>>
            ELSE IF b[1] < 128 THEN <<b[1]>> \o Chars(Tail(b))
            ELSE IF b[1] \in 194..223 /\ Len(b) >= 2 /\ b[2] \in 128..191 THEN <<(b[1] - 192) * 64 + (b[2] - 128)>> \o Chars(SubSeq(b, 3, Len(b)))
            ELSE IF b[1] \in 248..255 THEN <<65533>> \o Chars(Tail(b))
            ELSE IF b[1] \in (225..236) \cup {239} /\ Len(b) >= 3 /\ b[2] \in 128..191 /\ b[3] \in 128..191
                 THEN <<(b[1] - 224) * 4096 + (b[2] - 128) * 64 + (b[3] - 128)>> \o Chars(SubSeq(b, 4, Len(b)))
            ELSE <<-1>>
Valid(b) == \A x \in 1..Len(Chars(b)) : Chars(b)[x] >= 0
Utf8(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
ALow(c) == IF c \in 65..90 THEN c + 32 ELSE c
AUp(c) == IF c \in 97..122 THEN c - 32 ELSE c
\* the characters the replay uses: e acute, a grave, sharp s, capital sharp s, omega
ULow(c) == CASE c \in 65..90 \/ c \in {192, 201} -> <<c + 32>> [] c = 7838 -> <<223>> [] c = 937 -> <<969>> [] OTHER -> <<c>>
UUp(c) == CASE c \in 97..122 \/ c \in {224, 233} -> <<c - 32>> [] c = 223 -> <<83, 83>> [] c = 969 -> <<937>> [] OTHER -> <<c>>
USpace(c) == c \in {9, 10, 11, 12, 13, 32, 133, 160, 8195, 65533}
\* ------------------------------- white space -------------------------------
\* the code's way: remember that a space is needed
RECURSIVE Norm(_, _, _, _)
Norm(v, Sp(_), need, acc) == IF v = <<>> THEN acc
                             ELSE IF Sp(v[1]) THEN Norm(Tail(v), Sp, TRUE, acc)
                             ELSE Norm(Tail(v), Sp, FALSE, acc \o (IF need /\ acc # <<>> THEN <<32>> ELSE <<>>) \o <<v[1]>>)
\* its meaning: the words, one space apart
RECURSIVE Words(_, _, _)
Words(v, Sp(_), w) == IF v = <<>> THEN (IF w = <<>> THEN <<>> ELSE <<w>>)
                      ELSE IF Sp(v[1]) THEN (IF w = <<>> THEN <<>> ELSE <<w>>) \o Words(Tail(v), Sp, <<>>)
                      ELSE Words(Tail(v), Sp, Append(w, v[1]))
RECURSIVE Joined(_)
Joined(ws) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o <<32>> \o Joined(Tail(ws))
\* --------------------------------- base64 ----------------------------------
Digit(x) == IF x < 26 THEN 65 + x ELSE IF x < 52 THEN 71 + x ELSE IF x < 62 THEN x - 4 ELSE IF x = 62 THEN 43 ELSE 47
RECURSIVE To64(_)
To64(b) == IF b = <<>> THEN <<>>
           ELSE LET b2 == IF Len(b) > 1 THEN b[2] ELSE 0
                    b3 == IF Len(b) > 2 THEN b[3] ELSE 0
                IN <<Digit(b[1] \div 4), Digit((b[1] % 4) * 16 + (b2 \div 16)),
                     IF Len(b) > 1 THEN Digit((b2 % 16) * 4 + (b3 \div 64)) ELSE 61, IF Len(b) > 2 THEN Digit(b3 % 64) ELSE 61>>
                   \o To64(SubSeq(b, 4, Len(b)))
Und(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE 0
RECURSIVE Guess(_)
Guess(t) == IF Len(t) < 4 THEN <<>>
            ELSE LET a == Und(t[1]) * 4 + (Und(t[2]) \div 16)
                     b == (Und(t[2]) % 16) * 16 + (Und(t[3]) \div 4)
                     c == (Und(t[3]) % 4) * 64 + Und(t[4])
                 IN (IF Len(t) = 4 /\ t[4] = 61 THEN (IF t[3] = 61 THEN <<a>> ELSE <<a, b>>) ELSE <<a, b, c>>) \o Guess(SubSeq(t, 5, Len(t)))
\* ------------------------------ one transform ------------------------------
OutOf(b, r) == SubSeq(b, r[1], IF r[2] < Len(b) THEN r[2] ELSE Len(b))
Can(t, v) == IF t.k = "from_base64" THEN To64(Guess(v)) = v ELSE TRUE
Claimed(t, v) == t.u /\ t.k \in {"lower", "upper", "normspace"} => Valid(v)
Recode(cs) == Map(cs, Utf8)
Apply(t, v) == CASE t.k = "lower" -> IF t.u THEN Recode(Map(Chars(v), ULow)) ELSE Map(v, LAMBDA c : <<ALow(c)>>)
                 [] t.k = "upper" -> IF t.u THEN Recode(Map(Chars(v), UUp)) ELSE Map(v, LAMBDA c : <<AUp(c)>>)
                 [] t.k = "normspace" -> IF t.u THEN Recode(Norm(Chars(v), USpace, FALSE, <<>>)) ELSE Norm(v, LAMBDA c : c <= 32, FALSE, <<>>)
                 [] t.k = "bytes" -> Flat([x \in 1..Len(t.r) |-> OutOf(v, t.r[x])])
                 [] t.k = "to_base64" -> To64(v)
                 [] OTHER -> Guess(v)

T(k, u, r) == [k |-> k, u |-> u, r |-> r]
Kinds == {T("lower", FALSE, <<>>), T("upper", TRUE, <<>>), T("normspace", FALSE, <<>>), T("normspace", TRUE, <<>>),
          T("bytes", FALSE, <<<<2, 3>>, <<1, 1>>>>), T("to_base64", FALSE, <<>>), T("from_base64", FALSE, <<>>)}
Pool == {<<>>, <<65, 32, 32, 98>>, <<32, 195, 159>>, <<89, 81, 61, 61>>, <<194, 160, 122, 1, 65>>, <<66, 255, 98>>}
Begin(c, v) == /\ chain = c /\ vals = v /\ n = 1 /\ i = 1 /\ cur = <<>> /\ tmp1 = <<>> /\ tmp2 = <<>> /\ out = <<>> /\ phase = "value"
Init == \/ \E k \in 1..MaxChain : \E c \in [1..k -> Kinds], v \in [1..2 -> Pool] : Begin(c, v)
        \/ \E x \in 1..Len(Given) : Begin(Given[x].chain, Given[x].vals)
\* the value a step reads, and the buffer it fills (cleared first)
Source == IF i = 1 THEN vals[n] ELSE IF i % 2 = 0 THEN tmp1 ELSE tmp2
Step == /\ phase = "value" /\ n <= Len(vals) /\ i <= Len(chain)
        /\ IF ~Claimed(chain[i], Source) THEN phase' = "unclaimed" /\ UNCHANGED <<tmp1, tmp2, i>>
           ELSE IF ~Can(chain[i], Source) THEN phase' = "failed" /\ UNCHANGED <<tmp1, tmp2, i>>
           ELSE /\ i' = i + 1 /\ phase' = phase
                /\ IF i % 2 = 1 THEN tmp1' = Apply(chain[i], Source) /\ tmp2' = tmp2 ELSE tmp2' = Apply(chain[i], Source) /\ tmp1' = tmp1
        /\ UNCHANGED <<chain, vals, n, cur, out>>
Emitted == /\ phase = "value" /\ n <= Len(vals) /\ i > Len(chain)
           /\ out' = Append(out, IF Len(chain) % 2 = 1 THEN tmp1 ELSE tmp2)
           /\ n' = n + 1 /\ i' = 1 /\ UNCHANGED <<chain, vals, cur, tmp1, tmp2, phase>>
Finish == /\ phase = "value" /\ n > Len(vals) /\ phase' = "done" /\ UNCHANGED <<chain, vals, n, i, cur, tmp1, tmp2, out>>
Next == Step \/ Emitted \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* -------------------------------- meaning ---------------------------------
\* composition, one value at a time
RECURSIVE All(_, _)
All(c, v) == IF c = <<>> THEN v ELSE All(Tail(c), Apply(c[1], v))
Composed == phase = "done" => Len(out) = Len(vals) /\ \A x \in 1..Len(vals) : out[x] = All(chain, vals[x])
\* what the single transforms are
Said(t, v, w) == CASE t.k = "normspace" -> IF t.u THEN w = Recode(Joined(Words(Chars(v), USpace, <<>>))) ELSE w = Joined(Words(v, LAMBDA c : c <= 32, <<>>))
                   [] t.k = "to_base64" -> Guess(w) = v /\ Len(w) = ((Len(v) + 2) \div 3) * 4
                   [] t.k = "from_base64" -> To64(w) = v
                   [] t.k = "bytes" -> Len(w) <= 200 /\ \A x \in 1..Len(w) : \E y \in 1..Len(v) : v[y] = w[x]
                   [] t.u -> Valid(w) /\ Apply(t, w) = w
                   [] OTHER -> Len(w) = Len(v) /\ Apply(t, w) = w
Single == (phase = "done" /\ Len(chain) = 1) => \A x \in 1..Len(vals) : Said(chain[1], vals[x], out[x])
Terminates == <>(phase # "value")
Emit == phase \in {"done", "failed"} => PrintT(ToJson([chain |-> chain, vals |-> vals, out |-> out, ok |-> phase = "done"]))
=============================================================================
