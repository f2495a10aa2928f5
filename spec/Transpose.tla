------------------------------ MODULE Transpose ------------------------------
(***************************************************************************)
(* cdx transpose (src/transpose.rs).  A file is [h, w, rows]: header or not,  *)
(* the number of columns (of the header, else of the first line), and the     *)
(* width of each line.  A cell is named by its line and column; line 0 is the *)
(* header; <<>> is an empty cell.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxW, MaxLines
VARIABLES file, limit, kept, col, out, phase
vars == <<file, limit, kept, col, out, phase>>
Given == ndJsonDeserialize("given.ndjson")
Start(f, l) == file = f /\ limit = l /\ kept = 0 /\ col = 1 /\ out = <<>> /\ phase = "read"
Init == \/ \E h \in BOOLEAN, n \in 0..MaxLines : \E rs \in [1..n -> 1..MaxW], w \in 1..MaxW, l \in 0..MaxLines + 1 :
             (h \/ n > 0) /\ (~h => w = rs[1]) /\ Start([h |-> h, w |-> w, rows |-> rs], l)
        \/ \E n \in 1..Len(Given) : Start(Given[n].file, Given[n].limit)
Read == /\ phase = "read"
        /\ IF kept < limit /\ kept < Len(file.rows) THEN kept' = kept + 1 /\ UNCHANGED phase ELSE phase' = "write" /\ UNCHANGED kept
        /\ UNCHANGED <<file, limit, col, out>>
Cell(r, c) == IF c <= file.rows[r] THEN <<r, c>> ELSE <<>>
Write == /\ phase = "write" /\ col <= file.w
         /\ out' = Append(out, (IF file.h THEN <<<<0, col>>>> ELSE <<>>) \o [r \in 1..kept |-> Cell(r, col)])
         /\ col' = col + 1 /\ UNCHANGED <<file, limit, kept, phase>>
Finish == phase = "write" /\ col > file.w /\ phase' = "done" /\ UNCHANGED <<file, limit, kept, col, out>>
Next == Read \/ Write \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ------------------------------- meaning --------------------------------
\* the input as a matrix, header first, lines cut or filled to the width
In == (IF file.h THEN <<[c \in 1..file.w |-> <<0, c>>]>> ELSE <<>>)
      \o [r \in 1..(IF limit < Len(file.rows) THEN limit ELSE Len(file.rows)) |-> [c \in 1..file.w |-> Cell(r, c)]]
Right == phase = "done" => LET m == In IN
                           /\ Len(out) = file.w
                           /\ \A c \in 1..file.w : Len(out[c]) = Len(m) /\ \A r \in 1..Len(m) : out[c][r] = m[r][c]
Terminates == <>(phase = "done")
Emit == phase = "done" => PrintT(ToJson([file |-> file, limit |-> limit, out |-> out]))
=============================================================================
