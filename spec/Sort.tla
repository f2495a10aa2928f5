-------------------------------- MODULE Sort --------------------------------
(***************************************************************************)
(* External sort: read the files in order into a memory buffer, spill       *)
(* sorted runs whenever the buffer is full (modelled as: at any moment),     *)
(* finally merge the runs.  This is Sorter::{add_file,add,calc,do_sort,      *)
(* write_tmp,finalize} and SortConfig::merge_t2 of src/sort.rs.              *)
(***************************************************************************)
EXTENDS SortCore, Json

CONSTANT Nothing
VARIABLES input,   \* sequence of files, each a sequence of lines
          keys, uniq,
          todo,    \* lines not yet read
          buf,     \* lines in memory
          runs,    \* sorted runs on disk
          out, phase

vars == <<input, keys, uniq, todo, buf, runs, out, phase>>

Start(i, k, u) ==
  /\ input = i /\ keys = k /\ uniq = u
  /\ todo = Concat(i)
  /\ buf = <<>> /\ runs = <<>> /\ out = <<>>
  /\ phase = "read"

ReadLine ==
  /\ phase = "read" /\ todo # <<>>
  /\ buf' = Append(buf, Head(todo)) /\ todo' = Tail(todo)
  /\ UNCHANGED <<input, keys, uniq, runs, out, phase>>

Spill ==
  /\ phase = "read" /\ buf # <<>>
  /\ runs' = Append(runs, RunOf(keys, uniq, buf)) /\ buf' = <<>>
  /\ UNCHANGED <<input, keys, uniq, todo, out, phase>>

FinishInMemory ==
  /\ phase = "read" /\ todo = <<>> /\ runs = <<>>
  /\ out' = RunOf(keys, uniq, buf) /\ buf' = <<>> /\ phase' = "done"
  /\ UNCHANGED <<input, keys, uniq, todo, runs>>

StartMerge ==
  /\ phase = "read" /\ todo = <<>> /\ runs # <<>>
  /\ runs' = Append(runs, RunOf(keys, uniq, buf)) /\ buf' = <<>> /\ phase' = "merge"
  /\ UNCHANGED <<input, keys, uniq, todo, out>>

\* the run whose head comes first; among equal heads the earliest run
Winner(rs) ==
  CHOOSE i \in 1..Len(rs) :
    /\ rs[i] # <<>>
    /\ \A j \in 1..Len(rs) : rs[j] # <<>> =>
         \/ Before(keys, rs[i][1], rs[j][1])
         \/ Same(keys, rs[i][1], rs[j][1]) /\ i <= j

MergeStep ==
  /\ phase = "merge" /\ \E i \in 1..Len(runs) : runs[i] # <<>>
  /\ LET w == Winner(runs)
         x == runs[w][1]
     IN  /\ runs' = [runs EXCEPT ![w] = Tail(@)]
         /\ out' = IF uniq /\ out # <<>> /\ Same(keys, out[Len(out)], x)
                   THEN out ELSE Append(out, x)
  /\ UNCHANGED <<input, keys, uniq, todo, buf, phase>>

MergeEnd ==
  /\ phase = "merge" /\ \A i \in 1..Len(runs) : runs[i] = <<>>
  /\ phase' = "done"
  /\ UNCHANGED <<input, keys, uniq, todo, buf, runs, out>>

Next == ReadLine \/ Spill \/ FinishInMemory \/ StartMerge \/ MergeStep \/ MergeEnd

\* ------------------------------ properties ------------------------------
All == Concat(input)
\* nothing is lost or duplicated at any moment (without -u)
Conservation ==
  ~uniq => /\ Ids(todo) \cup Ids(buf) \cup Ids(Concat(runs)) \cup Ids(out) = Ids(All)
           /\ Len(todo) + Len(buf) + Len(Concat(runs)) + Len(out) = Len(All)
RunsOrdered == \A i \in 1..Len(runs) : IsOrdered(keys, runs[i])
OutOrdered == IsOrdered(keys, out)
\* whatever was already written precedes whatever is still to come
OutIsPrefix == phase = "merge" =>
  \A i \in 1..Len(out) : \A r \in 1..Len(runs) : \A j \in 1..Len(runs[r]) :
     ~ Before(keys, runs[r][j], out[i])
FinalMeaning == phase = "done" => Meaning(keys, uniq, All, out)
BufferIndependent == phase = "done" => out = RunOf(keys, uniq, All)
=============================================================================
