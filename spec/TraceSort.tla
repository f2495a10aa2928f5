------------------------------ MODULE TraceSort ------------------------------
(***************************************************************************)
(* Recorded runs of the real sort, checked against Sort.  Each record gives  *)
(* the input and the output the implementation produced; the specification   *)
(* is stepped on that input, and each line it writes must be the recorded     *)
(* one.  How the implementation divides its input into runs is not recorded:  *)
(* any choice is a behaviour of Sort, the schedule below (spill after every    *)
(* third line) is one of them, and Sort's BufferIndependent theorem (checked    *)
(* exhaustively by MCSort) says the choice cannot matter.                     *)
(***************************************************************************)
EXTENDS Sort, Integers
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE i
WithIds(fs) ==
  LET off(n) == Len(Concat(SubSeq(fs, 1, n - 1)))
  IN  [n \in 1..Len(fs) |-> [j \in 1..Len(fs[n]) |-> [k |-> fs[n][j], id |-> off(n) + j]]]
TraceInit == \E n \in 1..Len(Trace) :
  /\ i = n
  /\ Start(WithIds(Trace[n].files), Trace[n].keys, Trace[n].uniq)
TSpill == Len(buf) >= 3 /\ Spill
TRead == Len(buf) < 3 /\ ReadLine
TraceNext == (TRead \/ TSpill \/ FinishInMemory \/ StartMerge \/ MergeStep \/ MergeEnd) /\ UNCHANGED i
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, i>>
OutIds == [n \in 1..Len(out) |-> out[n].id]
Verdict == phase = "done" =>
  PrintT(ToJson([i |-> i, ok |-> (OutIds = Trace[i].out /\ Meaning(keys, uniq, All, out)), want |-> OutIds]))
=============================================================================
