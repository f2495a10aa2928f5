--------------------------------- MODULE Cat ---------------------------------
(***************************************************************************)
(* cdx cat without line options (src/bin/cdx/cat_main.rs): the first line of  *)
(* each file, then its remaining bytes in chunks.  A file is [h, d]: with or  *)
(* without header and its data as symbols, 1 a byte, 0 a newline.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxFiles, MaxLen, Chunk
VARIABLES files, pad, f, at, first, out, lastNl, phase
vars == <<files, pad, f, at, first, out, lastNl, phase>>
Given == ndJsonDeserialize("given.ndjson")
Pads == {"yes", "no", "end"}
HEAD == 2       \* a whole header line in the output
File == [h : BOOLEAN, d : UNION {[1..n -> 0..1] : n \in 0..MaxLen}]
Same(fs) == \A i, j \in 1..Len(fs) : (fs[i].h = fs[j].h \/ (~fs[i].h /\ fs[i].d = <<>>) \/ (~fs[j].h /\ fs[j].d = <<>>))
Start(fs, p) == /\ files = fs /\ pad = p /\ f = 1 /\ at = 0 /\ first = TRUE /\ out = <<>> /\ lastNl = TRUE /\ phase = "open"
Init == \/ \E n \in 1..MaxFiles : \E fs \in [1..n -> File], p \in Pads : Same(fs) /\ Start(fs, p)
        \/ \E n \in 1..Len(Given) : Start(Given[n].files, Given[n].pad)

\* ------------------------- the code's way ---------------------------------
D == files[f].d
\* where the first line ends (0 if there is no data)
FirstEnd == IF \E i \in 1..Len(D) : D[i] = 0 THEN CHOOSE i \in 1..Len(D) : D[i] = 0 /\ \A j \in 1..i - 1 : D[j] # 0 ELSE Len(D)
Ends(s, old) == IF s = <<>> THEN old ELSE s[Len(s)] # 1
Open ==
  /\ phase = "open"
  /\ IF f > Len(files) THEN phase' = "tail" /\ UNCHANGED <<at, first, out, lastNl>>
     ELSE IF files[f].h THEN
       /\ out' = IF first THEN Append(out, HEAD) ELSE out
       /\ lastNl' = IF first THEN TRUE ELSE lastNl
       /\ first' = FALSE /\ at' = 0 /\ phase' = "copy"
     ELSE IF D = <<>> THEN phase' = "next" /\ UNCHANGED <<at, first, out, lastNl>>
     ELSE /\ out' = out \o SubSeq(D, 1, FirstEnd) /\ lastNl' = Ends(SubSeq(D, 1, FirstEnd), lastNl)
          /\ first' = FALSE /\ at' = FirstEnd /\ phase' = "copy"
  /\ UNCHANGED <<files, pad, f>>
Copy ==
  /\ phase = "copy" /\ at < Len(D)
  /\ LET to == IF at + Chunk < Len(D) THEN at + Chunk ELSE Len(D)
     IN out' = out \o SubSeq(D, at + 1, to) /\ lastNl' = Ends(SubSeq(D, at + 1, to), lastNl) /\ at' = to
  /\ UNCHANGED <<files, pad, f, first, phase>>
Close ==
  /\ phase = "copy" /\ at = Len(D)
  /\ IF pad = "yes" /\ ~lastNl THEN out' = Append(out, 0) /\ lastNl' = TRUE ELSE UNCHANGED <<out, lastNl>>
  /\ phase' = "next" /\ UNCHANGED <<files, pad, f, at, first>>
Advance == phase = "next" /\ f' = f + 1 /\ phase' = "open" /\ UNCHANGED <<files, pad, at, first, out, lastNl>>
Finish == /\ phase = "tail" /\ phase' = "done"
          /\ out' = IF pad = "end" /\ ~lastNl THEN Append(out, 0) ELSE out
          /\ UNCHANGED <<files, pad, f, at, first, lastNl>>
Next == Open \/ Copy \/ Close \/ Advance \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------- meaning --------------------------------
Fix(d) == IF d # <<>> /\ d[Len(d)] = 1 THEN Append(d, 0) ELSE d
RECURSIVE All(_)
All(k) == IF k > Len(files) THEN <<>> ELSE (IF pad = "yes" THEN Fix(files[k].d) ELSE files[k].d) \o All(k + 1)
Head1 == IF \E k \in 1..Len(files) : files[k].h THEN <<HEAD>> ELSE <<>>
Right == phase = "done" => out = Head1 \o (IF pad = "end" THEN Fix(All(1)) ELSE All(1))
\* the program knows at every moment whether the output ends in a newline
KnowsEnd == phase # "done" => lastNl = (out = <<>> \/ out[Len(out)] # 1)
Terminates == <>(phase = "done")
Emit == phase = "done" => PrintT(ToJson([files |-> files, pad |-> pad, out |-> out]))
=============================================================================
