------------------------------- MODULE Headers -------------------------------
(***************************************************************************)
(* How the tools that read several files treat their headers: HeaderChecker   *)
(* of src/util.rs, asked once per non-empty file, for every header mode.      *)
(* A file is [h, n]: its header (0 none, 1 and 2 two different good ones, 3   *)
(* malformed) and its number of data lines.                                   *)
(* The result is what is written, in order, or the file that is refused.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxFiles, MaxLines, Modes
VARIABLES files, mode, f, sawOne, head, out, said, phase
vars == <<files, mode, f, sawOne, head, out, said, phase>>
Given == ndJsonDeserialize("given.ndjson")
File == [h : 0..3, n : 0..MaxLines]
Start(fs, m) == /\ files = fs /\ mode = m /\ f = 1 /\ sawOne = FALSE /\ head = 0 /\ out = <<>> /\ said = <<>>
                /\ phase = IF fs = <<>> THEN "done" ELSE "read"
Init == \/ \E n \in 1..MaxFiles : \E fs \in [1..n -> File], m \in Modes : Start(fs, m)
        \/ \E n \in 1..Len(Given) : Start(Given[n].files, Given[n].mode)

\* ------------------------- the code's way ---------------------------------
Empty(x) == x.h = 0 /\ x.n = 0
Cdx(x) == mode # "ignore" /\ x.h # 0
Valid(x) == x.h # 3 \/ mode \in {"ignore", "strip", "none"}
Refuse == phase' = "refused" /\ UNCHANGED <<files, mode, f, sawOne, head, out, said>>
\* Allow: the first line (the header if there is one) is written
Allow(x, write) ==
  /\ out' = out \o (IF x.h # 0 /\ write THEN <<[h |-> x.h, f |-> f, i |-> 0]>> ELSE <<>>)
                \o [i \in 1..x.n |-> [h |-> 0, f |-> f, i |-> i]]
  /\ said' = Append(said, write)
  /\ f' = f + 1 /\ phase' = IF f = Len(files) THEN "done" ELSE "read"
Skip == /\ phase = "read" /\ Empty(files[f])
        /\ f' = f + 1 /\ phase' = (IF f = Len(files) THEN "done" ELSE "read")
        /\ UNCHANGED <<files, mode, sawOne, head, out, said>>
Bad == phase = "read" /\ ~Empty(files[f]) /\ ~Valid(files[f]) /\ Refuse
First ==
  /\ phase = "read" /\ ~Empty(files[f]) /\ Valid(files[f]) /\ ~sawOne
  /\ LET x == files[f] IN
     IF Cdx(x) /\ mode = "none" THEN Refuse
     ELSE IF ~Cdx(x) /\ mode = "require" THEN Refuse
     ELSE /\ sawOne' = TRUE
          /\ head' = IF Cdx(x) /\ mode # "strip" THEN x.h ELSE 0
          /\ Allow(x, ~(Cdx(x) /\ mode = "strip"))
          /\ UNCHANGED <<files, mode>>
Later ==
  /\ phase = "read" /\ ~Empty(files[f]) /\ Valid(files[f]) /\ sawOne
  /\ LET x == files[f] IN
     IF \/ mode = "match" /\ Cdx(x) /\ x.h # head
        \/ mode = "match" /\ ~Cdx(x) /\ head # 0
        \/ mode = "require" /\ (~Cdx(x) \/ x.h # head)
        \/ mode = "none" /\ Cdx(x)
     THEN Refuse
     ELSE Allow(x, ~Cdx(x)) /\ UNCHANGED <<files, mode, sawOne, head>>
Next == Skip \/ Bad \/ First \/ Later
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------- meaning --------------------------------
Real == {k \in 1..Len(files) : ~Empty(files[k])}
Lead == CHOOSE k \in Real : \A j \in Real : k <= j
Agree == \A j, k \in Real : files[j].h = files[k].h
Wrong == \/ mode \in {"match", "require", "trust"} /\ \E k \in Real : files[k].h = 3
         \/ mode = "match" /\ ~Agree
         \/ mode = "require" /\ (~Agree \/ \E k \in Real : files[k].h = 0)
         \/ mode = "none" /\ \E k \in Real : files[k].h # 0
RefusesRight == (phase = "done" => ~Wrong) /\ (phase = "refused" => Wrong)
RECURSIVE Data(_)
Data(k) == IF k > Len(files) THEN <<>> ELSE [i \in 1..files[k].n |-> [h |-> 0, f |-> k, i |-> i]] \o Data(k + 1)
NoHead == SelectSeq(out, LAMBDA o : o.h = 0)
\* every data line once, in order
DataRight == phase = "done" => NoHead = Data(1)
\* at most one header, before everything, the first file's
HeadRight == phase = "done" =>
   IF mode = "ignore" THEN Len(out) - Len(NoHead) = Cardinality({k \in Real : files[k].h # 0})
   ELSE IF mode \in {"strip", "none"} THEN Len(out) = Len(NoHead)
   ELSE IF Real # {} /\ files[Lead].h # 0 THEN Len(out) = Len(NoHead) + 1 /\ out[1].h = files[Lead].h
   ELSE Len(out) = Len(NoHead)
Terminates == <>(phase # "read")
Emit == phase # "read" => PrintT(ToJson([files |-> files, mode |-> mode, ok |-> phase = "done", out |-> out, said |-> said]))
=============================================================================
