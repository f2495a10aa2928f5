------------------------------- MODULE Paths -------------------------------
(***************************************************************************)
(* The first or last parts of a delimited text, such as a file name: tail_u8, *)
(* tail_path_u8, head and head_path of src/text.rs, which binsearch           *)
(* --filename and cgrep --location use to shorten the names they write.       *)
(* A text is a sequence of 0 (the delimiter) and other characters.  One scan, *)
(* from the end or from the start, counts delimiters.                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, MaxNum
VARIABLES text, num, way, pos, left, res, phase
vars == <<text, num, way, pos, left, res, phase>>

Given == ndJsonDeserialize("given.ndjson")
Ways == {"tail", "tailpath", "head", "headpath"}
FromEnd == way \in {"tail", "tailpath"}
\* a path that ends, or starts, with the delimiter has a part more
Extra(t, n, w) == IF w = "tailpath" /\ t # <<>> /\ t[Len(t)] = 0 THEN n + 1
                  ELSE IF w = "headpath" /\ t # <<>> /\ t[1] = 0 THEN n + 1 ELSE n
Start(t, n, w) == /\ text = t /\ num = n /\ way = w
                  /\ pos = (IF w \in {"tail", "tailpath"} THEN Len(t) ELSE 1)
                  /\ left = Extra(t, n, w) /\ res = <<>> /\ phase = "scan"
Init == \/ \E t \in UNION {[1..k -> 0..1] : k \in 0..MaxLen}, n \in 0..MaxNum, w \in Ways : Start(t, n, w)
        \/ \E i \in 1..Len(Given), w \in Ways : Start(Given[i].text, Given[i].num, w)

Finish(r) == res' = r /\ phase' = "done" /\ UNCHANGED <<text, num, way, pos, left>>
Rest(p) == SubSeq(text, p, Len(text))
Scan == /\ phase = "scan"
        /\ IF left = 0 THEN Finish(<<>>)
           ELSE IF FromEnd /\ pos = 0 THEN Finish(text)
           ELSE IF ~FromEnd /\ pos > Len(text) THEN Finish(text)
           ELSE IF text[pos] = 0 /\ left = 1 THEN Finish(IF FromEnd THEN Rest(pos + 1) ELSE SubSeq(text, 1, pos - 1))
           ELSE /\ left' = (IF text[pos] = 0 THEN left - 1 ELSE left)
                /\ pos' = (IF FromEnd THEN pos - 1 ELSE pos + 1)
                /\ UNCHANGED <<text, num, way, res, phase>>
Next == Scan
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(phase = "done")

\* ------------------------------- meaning --------------------------------
Cuts == {i \in 1..Len(text) : text[i] = 0}
Parts == Cardinality(Cuts) + 1
\* the k-th cut from the start
Cut(k) == CHOOSE i \in Cuts : Cardinality({j \in Cuts : j <= i}) = k
LastParts(k) == IF k = 0 THEN <<>> ELSE IF k >= Parts THEN text ELSE Rest(Cut(Parts - k) + 1)
FirstParts(k) == IF k = 0 THEN <<>> ELSE IF k >= Parts THEN text ELSE SubSeq(text, 1, Cut(k) - 1)
Right == phase = "done" =>
   res = (IF FromEnd THEN LastParts(Extra(text, num, way)) ELSE FirstParts(Extra(text, num, way)))
\* what a file name is shortened to: no number, or 0, keeps it whole
Shown == IF num = 0 THEN text ELSE res
ShownRight == (phase = "done" /\ way = "tailpath" /\ text # <<>>) =>
   /\ Shown # <<>> \/ \A i \in 1..Len(text) : text[i] = 0
   /\ \E k \in 0..Len(text) : Shown = Rest(k + 1)
   /\ Shown = text \/ Cardinality({i \in 1..Len(Shown) : Shown[i] = 0 /\ i < Len(Shown)}) = num - 1
Emit == phase = "done" => PrintT(ToJson([text |-> text, num |-> num, way |-> way, res |-> res, shown |-> Shown]))
=============================================================================
