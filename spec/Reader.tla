------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* The library's Reader (src/util.rs): lines of a file one after another, the *)
(* last `keep` lines before it still in view, its number and the byte offset   *)
(* where it starts.  A Reader can be opened on one file after another.         *)
(* A file is the length of its header (0: none) and of each line, all with     *)
(* their line breaks.  The lines are kept in a ring of keep + 1 places; place   *)
(* content 0 is a line never read.                                             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLines, MaxKeep, MaxOpens, Lengths
VARIABLES files, reads, keep, at, ring, curr, num, bytes, done, got, log, phase
vars == <<files, reads, keep, at, ring, curr, num, bytes, done, got, log, phase>>

Given == ndJsonDeserialize("given.ndjson")
\* files[i] is opened i-th; reads[i] times the next line is asked for, unless the file ends before
Start(f, r, k) == /\ files = f /\ reads = r /\ keep = k /\ at = 0 /\ ring = <<>> /\ curr = 0 /\ num = 0
                  /\ bytes = 0 /\ done = TRUE /\ got = 0 /\ log = <<>> /\ phase = "open"
SmallFiles == {[head |-> h, lens |-> l] : h \in {0, 9}, l \in UNION {[1..n -> Lengths] : n \in 0..MaxLines}}
Init == \/ \E n \in 1..MaxOpens, k \in 0..MaxKeep : \E f \in [1..n -> SmallFiles] :
             \E r \in {[i \in 1..n |-> IF i = n THEN Len(f[i].lens) ELSE m] : m \in 0..MaxLines} : Start(f, r, k)
        \/ \E i \in 1..Len(Given) : Start(Given[i].files, Given[i].reads, Given[i].keep)

Size == keep + 1
Prev(r, c, k) == r[((c - k + Size) % Size) + 1]
\* what is in view
View(r, c, n, b, d) == [file |-> at', line |-> n, bytes |-> b, done |-> d, text |-> Prev(r, c, 0), prev |-> [k \in 1..keep |-> Prev(r, c, k)]]
Open == /\ phase = "open" /\ at < Len(files) /\ at' = at + 1
        /\ LET f == files[at + 1] IN
           /\ ring' = [i \in 1..Size |-> IF i = 1 /\ f.lens # <<>> THEN 1 ELSE 0]
           /\ curr' = 0 /\ num' = 1 /\ bytes' = f.head /\ done' = (f.lens = <<>>) /\ got' = 0
           /\ log' = Append(log, View(ring', 0, 1, f.head, done'))
           /\ phase' = "read"
        /\ UNCHANGED <<files, reads, keep>>
Get == /\ phase = "read" /\ got < reads[at] /\ ~done /\ got' = got + 1
       /\ LET f == files[at].lens IN
          /\ bytes' = bytes + f[ring[curr + 1]]
          /\ num' = num + 1 /\ curr' = (curr + 1) % Size
          /\ ring' = [ring EXCEPT ![curr' + 1] = IF num + 1 <= Len(f) THEN num + 1 ELSE 0]
          /\ done' = (num + 1 > Len(f))
          /\ at' = at
          /\ log' = Append(log, View(ring', curr', num', bytes', done'))
       /\ UNCHANGED <<files, reads, keep, phase>>
Leave == /\ phase = "read" /\ (done \/ got = reads[at])
         /\ phase' = (IF at = Len(files) THEN "done" ELSE "open")
         /\ UNCHANGED <<files, reads, keep, at, ring, curr, num, bytes, done, got, log>>
Next == Open \/ Get \/ Leave
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(phase = "done")

\* ------------------------------- meaning --------------------------------
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
Line(f, n) == IF n >= 1 /\ n <= Len(f.lens) THEN n ELSE 0
Right == \A i \in 1..Len(log) :
   LET v == log[i]  f == files[v.file] IN
   /\ v.text = Line(f, v.line)
   /\ \A k \in 1..keep : v.prev[k] = Line(f, v.line - k)
   /\ v.done = (v.line > Len(f.lens))
   /\ v.bytes = f.head + Sum(f.lens, v.line - 1)
\* nothing is skipped: the lines seen of a file are its first ones, in order
InOrder == \A i \in 1..Len(log) - 1 : \/ log[i + 1].file = log[i].file /\ log[i + 1].line = log[i].line + 1 /\ ~log[i].done
                                      \/ log[i + 1].file = log[i].file + 1 /\ log[i + 1].line = 1
Emit == phase = "done" => PrintT(ToJson([files |-> files, reads |-> reads, keep |-> keep, log |-> log]))
=============================================================================
