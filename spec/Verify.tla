-------------------------------- MODULE Verify --------------------------------
(***************************************************************************)
(* cdx verify (src/bin/cdx/verify_main.rs): is every line of every file as    *)
(* demanded?  A file is [w, rows]: the number of columns and the lines, each  *)
(* [k, ok, w]: rank of its key, does it match the patterns, its width.        *)
(* first and last demand (line OP value) of the first and last line: a        *)
(* sequence of [op, v], all of which must hold.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLines, Ranks, Ops
VARIABLES files, sort, first, last, limit, f, i, fails, phase
vars == <<files, sort, first, last, limit, f, i, fails, phase>>
Given == ndJsonDeserialize("given.ndjson")
Sorts == {"no", "sort", "unique"}
Rows == [k : Ranks, ok : BOOLEAN, w : {1, 2}]
Demands == {<<>>} \cup {<<[op |-> o, v |-> v]>> : o \in Ops, v \in Ranks}
Start(fs, s, a, z, m) == files = fs /\ sort = s /\ first = a /\ last = z /\ limit = m /\ f = 1 /\ i = 1 /\ fails = 0 /\ phase = "open"
Init == \/ \E n \in 0..MaxLines : \E rs \in [1..n -> Rows], s \in Sorts, m \in {0, 1, 5} :
             Start(<<[w |-> 1, rows |-> rs]>>, s, <<>>, <<>>, m)
        \/ \E n \in 1..2 : \E ks \in [1..n -> Ranks], a \in Demands, z \in Demands :
             Start(<<[w |-> 1, rows |-> [j \in 1..n |-> [k |-> ks[j], ok |-> TRUE, w |-> 1]]]>>, "no", a, z, 5)
        \/ \E n \in 1..Len(Given) : LET g == Given[n] IN Start(g.files, g.sort, g.first, g.last, g.limit)

Holds(x, d) == CASE d.op = "LT" -> x < d.v [] d.op = "LE" -> x <= d.v [] d.op = "GT" -> x > d.v
                 [] d.op = "GE" -> x >= d.v [] d.op = "EQ" -> x = d.v [] d.op = "NE" -> x # d.v
Meets(x, ds) == \A n \in 1..Len(ds) : Holds(x, ds[n])
R == files[f].rows
Open == /\ phase = "open"
        /\ IF f > Len(files) THEN phase' = "pass" /\ UNCHANGED <<i, fails>>
           ELSE /\ i' = 1
                /\ fails' = IF R # <<>> /\ ~Meets(R[1].k, first) THEN fails + 1 ELSE fails
                /\ phase' = IF R = <<>> THEN "close" ELSE "line"
        /\ UNCHANGED <<files, sort, first, last, limit, f>>
Disorder(j) == sort # "no" /\ j < Len(R) /\ (R[j].k > R[j + 1].k \/ (sort = "unique" /\ R[j].k = R[j + 1].k))
Line == /\ phase = "line"
        /\ LET bad == R[i].w # files[f].w \/ ~R[i].ok \/ Disorder(i)
               atEnd == i = Len(R)
               n == fails + (IF atEnd /\ ~Meets(R[i].k, last) THEN 1 ELSE 0) + (IF bad THEN 1 ELSE 0)
           IN /\ fails' = n
              /\ IF atEnd \/ (bad /\ n >= limit) THEN phase' = "close" /\ UNCHANGED i ELSE i' = i + 1 /\ UNCHANGED phase
        /\ UNCHANGED <<files, sort, first, last, limit, f>>
Close == /\ phase = "close"
         /\ IF fails > 0 THEN phase' = "fail" /\ UNCHANGED f ELSE phase' = "open" /\ f' = f + 1
         /\ UNCHANGED <<files, sort, first, last, limit, i, fails>>
Next == Open \/ Line \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------- meaning --------------------------------
GoodFile(x) == LET n == Len(x.rows) IN
  /\ \A j \in 1..n : x.rows[j].ok /\ x.rows[j].w = x.w
  /\ sort = "sort" => \A j, m \in 1..n : j < m => x.rows[j].k <= x.rows[m].k
  /\ sort = "unique" => \A j, m \in 1..n : j < m => x.rows[j].k < x.rows[m].k
  /\ n > 0 => Meets(x.rows[1].k, first) /\ Meets(x.rows[n].k, last)
Right == /\ phase = "pass" => \A n \in 1..Len(files) : GoodFile(files[n])
         /\ phase = "fail" => \E n \in 1..Len(files) : ~GoodFile(files[n])
Terminates == <>(phase \in {"pass", "fail"})
Emit == phase \in {"pass", "fail"} => PrintT(ToJson([files |-> files, sort |-> sort, first |-> first, last |-> last, limit |-> limit, ok |-> phase = "pass"]))
=============================================================================
