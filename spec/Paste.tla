-------------------------------- MODULE Paste --------------------------------
(***************************************************************************)
(* cdx paste (src/bin/cdx/paste_main.rs): all files in step, one output line  *)
(* per step.  A file is [h, names, n]: header or not, column names (numbers   *)
(* stand for names; a name is a sequence so that digits can be appended), and *)
(* its number of data lines.                                                  *)
(* A piece of an output line is the number of the file's line it copies, or 0 *)
(* for the default values.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxFiles, MaxLines
VARIABLES files, mode, last, dups, ren, sloppy, at, rows, head, phase
vars == <<files, mode, last, dups, ren, sloppy, at, rows, head, phase>>
Given == ndJsonDeserialize("given.ndjson")
Modes == {"exact", "early", "late"}
Start(fs, m, l, d, r, s) == /\ files = fs /\ mode = m /\ last = l /\ dups = d /\ ren = r /\ sloppy = s
                            /\ at = [i \in 1..Len(fs) |-> 1] /\ rows = <<>> /\ head = <<>> /\ phase = "open"
Init == \/ \E n \in 1..MaxFiles : \E k \in [1..n -> 0..MaxLines], h \in [1..n -> BOOLEAN], m \in Modes, l \in BOOLEAN :
             Start([i \in 1..n |-> [h |-> h[i], names |-> <<<<i>>>>, n |-> k[i]]], m, l, "fail", <<>>, FALSE)
        \/ \E n \in 1..Len(Given) : LET g == Given[n] IN Start(g.files, g.mode, g.last, g.dups, g.ren, g.sloppy)

\* ------------------------- the code's way ---------------------------------
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
RECURSIVE Free(_, _, _)
Free(have, name, x) == IF Has(have, Append(name, x)) THEN Free(have, name, x + 1) ELSE Append(name, x)
RECURSIVE Push(_, _, _)
\* [ok, names, ren]: names pushed one by one; a rename is used up by the first repetition of its column
Push(want, have, rn) ==
  IF want = <<>> THEN [ok |-> TRUE, names |-> have, ren |-> rn]
  ELSE LET x == Head(want)
           ks == {k \in 1..Len(rn) : rn[k].from = x}
       IN IF ~Has(have, x) THEN Push(Tail(want), Append(have, x), rn)
          ELSE IF ks # {} THEN
            LET k == CHOOSE k \in ks : \A j \in ks : k <= j
                rest == SubSeq(rn, 1, k - 1) \o SubSeq(rn, k + 1, Len(rn))
            IN IF Has(have, rn[k].to) THEN [ok |-> FALSE, names |-> have, ren |-> rn]
               ELSE Push(Tail(want), Append(have, rn[k].to), rest)
          ELSE CASE dups = "fail" -> [ok |-> FALSE, names |-> have, ren |-> rn]
                 [] dups = "allow" -> Push(Tail(want), Append(have, x), rn)
                 [] dups = "numeric" -> Push(Tail(want), Append(have, Free(have, x, 1)), rn)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Heads == \A i \in 1..Len(files) : files[i].h
\* names are only checked as long as every file so far has a header
Good == LET k == IF Heads THEN Len(files) ELSE (CHOOSE j \in 1..Len(files) : ~files[j].h /\ \A m \in 1..j - 1 : files[m].h) - 1
        IN Push(Flat([i \in 1..k |-> files[i].names]), <<>>, ren)
Open == /\ phase = "open"
        /\ IF ~Good.ok \/ (~sloppy /\ Good.ren # <<>>) THEN phase' = "failed" /\ UNCHANGED head
           ELSE phase' = "step" /\ head' = IF Heads THEN Good.names ELSE <<>>
        /\ UNCHANGED <<files, mode, last, dups, ren, sloppy, at, rows>>
Dead(i) == at[i] > files[i].n
NDead == Cardinality({i \in 1..Len(files) : Dead(i)})
Step ==
  /\ phase = "step" /\ NDead < Len(files)
  /\ IF mode = "exact" /\ NDead > 0 THEN phase' = "failed" /\ UNCHANGED <<rows, at>>
     ELSE IF mode = "early" /\ NDead > 0 THEN phase' = "done" /\ UNCHANGED <<rows, at>>
     ELSE /\ rows' = Append(rows, [i \in 1..Len(files) |-> IF ~Dead(i) THEN at[i] ELSE IF last /\ files[i].n > 0 THEN files[i].n ELSE 0])
          /\ at' = [i \in 1..Len(files) |-> IF Dead(i) THEN at[i] ELSE at[i] + 1]
          /\ UNCHANGED phase
  /\ UNCHANGED <<files, mode, last, dups, ren, sloppy, head>>
Finish == phase = "step" /\ NDead = Len(files) /\ phase' = "done" /\ UNCHANGED <<files, mode, last, dups, ren, sloppy, at, rows, head>>
Next == Open \/ Step \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------- meaning --------------------------------
Lens == {files[i].n : i \in 1..Len(files)}
Most == CHOOSE x \in Lens : \A y \in Lens : x >= y
Least == CHOOSE x \in Lens : \A y \in Lens : x <= y
RowsRight == phase = "done" =>
  /\ Len(rows) = IF mode = "early" THEN Least ELSE Most
  /\ \A k \in 1..Len(rows) : \A i \in 1..Len(files) :
       rows[k][i] = IF k <= files[i].n THEN k ELSE IF last THEN files[i].n ELSE 0
FailRight == phase = "failed" => (mode = "exact" /\ Least # Most) \/ ren # <<>> \/ dups = "fail"
ExactRight == (phase = "done" /\ mode = "exact") => Least = Most
Width(i) == Len(files[i].names)
HeadRight == phase = "done" =>
  /\ Heads => Len(head) = Len(Flat([i \in 1..Len(files) |-> files[i].names]))
  /\ ~Heads => head = <<>>
  /\ dups # "allow" => \A i, j \in 1..Len(head) : head[i] = head[j] => i = j
Terminates == <>(phase \in {"done", "failed"})
Emit == phase \in {"done", "failed"} => PrintT(ToJson([files |-> files, mode |-> mode, last |-> last, dups |-> dups, ren |-> ren, sloppy |-> sloppy,
                                                     ok |-> phase = "done", rows |-> rows, head |-> head]))
=============================================================================
