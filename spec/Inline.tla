------------------------------- MODULE Inline -------------------------------
(***************************************************************************)
(* Input given in place of a file name: everything after "<<" is the          *)
(* content, in which a backslash stands for itself and what follows it:       *)
(* n, t and s a newline, a tab and a blank, anything else (and the end of     *)
(* the text) what it is (unescape_vec of src/util.rs).                        *)
(* Characters: 1 n, 2 t, 3 s, 4 the backslash, 5 newline, 6 tab, 7 blank,     *)
(* 8 and more anything else.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxLen, Chars
VARIABLES src, i, slash, out, phase
vars == <<src, i, slash, out, phase>>
Given == ndJsonDeserialize("given.ndjson")
Start(t) == src = t /\ i = 1 /\ slash = FALSE /\ out = <<>> /\ phase = "read"
Init == \/ \E n \in 0..MaxLen : \E t \in [1..n -> Chars] : Start(t)
        \/ \E n \in 1..Len(Given) : Start(Given[n].src)

Meant(ch) == IF ch \in 1..3 THEN ch + 4 ELSE ch
Step == /\ phase = "read" /\ i <= Len(src)
        /\ IF slash THEN out' = Append(out, Meant(src[i])) /\ slash' = FALSE
           ELSE IF src[i] = 4 THEN slash' = TRUE /\ UNCHANGED out
           ELSE out' = Append(out, src[i]) /\ UNCHANGED slash
        /\ i' = i + 1 /\ UNCHANGED <<src, phase>>
End == /\ phase = "read" /\ i > Len(src)
       /\ out' = IF slash THEN Append(out, 4) ELSE out
       /\ phase' = "done" /\ UNCHANGED <<src, i, slash>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------- meaning --------------------------------
RECURSIVE Decode(_)
Decode(s) == IF s = <<>> THEN <<>>
             ELSE IF s[1] # 4 THEN <<s[1]>> \o Decode(Tail(s))
             ELSE IF Len(s) = 1 THEN <<4>>
             ELSE <<Meant(s[2])>> \o Decode(Tail(Tail(s)))
RECURSIVE Encode(_)
Encode(s) == IF s = <<>> THEN <<>>
             ELSE (IF s[1] \in 5..7 THEN <<4, s[1] - 4>> ELSE IF s[1] = 4 THEN <<4, 4>> ELSE <<s[1]>>) \o Encode(Tail(s))
Right == phase = "done" => out = Decode(src)
\* every content can be written, so that it is read back
Complete == phase = "done" => Decode(Encode(src)) = src
Shorter == Len(out) <= i
Terminates == <>(phase = "done")
Emit == phase = "done" => PrintT(ToJson([src |-> src, out |-> out]))
=============================================================================
