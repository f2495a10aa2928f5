-------------------------------- MODULE Uniq --------------------------------
(***************************************************************************)
(* cdx uniq (src/bin/cdx/uniq_main.rs): one pass, comparing each line with    *)
(* the line before it.  A line is its key class k and the rank v that         *)
(* --which compares.  The program has three loops; path says which one the    *)
(* options select.  All three must mean the same.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Keys, Vals
VARIABLES lines, which, path, i, tmp, cnt, out, done
vars == <<lines, which, path, i, tmp, cnt, out, done>>

Line == [k : Keys, v : Vals]
Files == UNION {[1..n -> Line] : n \in 0..MaxLen}
Whichs == {"first", "last", "min", "max"}
\* stream: write at the start of a group (no count wanted); prev: write the line before; tmp: keep a candidate
Paths(w) == CASE w = "first" -> {"stream", "tmp"} [] w = "last" -> {"prev", "tmp"} [] OTHER -> {"tmp"}
Given == ndJsonDeserialize("given.ndjson")

Start(f, w, p) == /\ lines = f /\ which = w /\ path = p
                  /\ i = 1 /\ tmp = 1 /\ cnt = 1
                  /\ out = IF p = "stream" /\ f # <<>> THEN <<1>> ELSE <<>>
                  /\ done = (f = <<>>)
Init == \/ \E f \in Files, w \in Whichs : \E p \in Paths(w) : Start(f, w, p)
        \/ \E n \in 1..Len(Given), w \in Whichs : \E p \in Paths(w) : Start(Given[n].lines, w, p)

Better(old, new) == CASE which = "first" -> FALSE
                      [] which = "last" -> TRUE
                      [] which = "min" -> lines[old].v > lines[new].v
                      [] which = "max" -> lines[old].v < lines[new].v
Flush == CASE path = "stream" -> out
           [] path = "prev" -> Append(out, i)
           [] path = "tmp" -> Append(out, tmp)
Same == /\ ~done /\ i < Len(lines) /\ lines[i].k = lines[i + 1].k
        /\ i' = i + 1 /\ cnt' = cnt + 1
        /\ tmp' = IF Better(tmp, i + 1) THEN i + 1 ELSE tmp
        /\ UNCHANGED <<lines, which, path, out, done>>
New == /\ ~done /\ i < Len(lines) /\ lines[i].k # lines[i + 1].k
       /\ i' = i + 1 /\ cnt' = 1 /\ tmp' = i + 1
       /\ out' = IF path = "stream" THEN Append(out, i + 1) ELSE Flush
       /\ UNCHANGED <<lines, which, path, done>>
Eof == /\ ~done /\ i = Len(lines)
       /\ out' = Flush /\ done' = TRUE
       /\ UNCHANGED <<lines, which, path, i, tmp, cnt>>
Next == Same \/ New \/ Eof
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------- meaning --------------------------------
\* maximal runs of equal keys
IsRun(a, b) == /\ \A n \in a..b : lines[n].k = lines[a].k
               /\ (a > 1 => lines[a - 1].k # lines[a].k)
               /\ (b < Len(lines) => lines[b + 1].k # lines[b].k)
Starts == {n \in 1..Len(lines) : n = 1 \/ lines[n - 1].k # lines[n].k}
EndOf(a) == CHOOSE b \in a..Len(lines) : IsRun(a, b)
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ordered(S \ {m})
Runs == LET s == Ordered(Starts) IN [n \in 1..Len(s) |-> <<s[n], EndOf(s[n])>>]
Chosen(a, b) == CASE which = "first" -> a
                  [] which = "last" -> b
                  [] which = "min" -> CHOOSE n \in a..b : \A m \in a..b : lines[n].v < lines[m].v \/ (lines[n].v = lines[m].v /\ n <= m)
                  [] which = "max" -> CHOOSE n \in a..b : \A m \in a..b : lines[n].v > lines[m].v \/ (lines[n].v = lines[m].v /\ n <= m)
\* one line per run, the chosen one
OneEach == done => out = [n \in 1..Len(Runs) |-> Chosen(Runs[n][1], Runs[n][2])]
\* the counts add up at every moment: the open run is exactly as long as cnt says
CountRight == ~done => cnt = i + 1 - (CHOOSE a \in Starts : a <= i /\ \A b \in Starts : b <= i => b <= a)
Terminates == <>done
Emit == done => PrintT(ToJson([lines |-> lines, which |-> which, path |-> path, runs |-> Runs, out |-> out]))
=============================================================================
