------------------------------- MODULE FileGen -------------------------------
(***************************************************************************)
(* cdx filegen (src/textgen.rs, src/bin/cdx/filegen_main.rs): a table of n     *)
(* lines whose columns are made by generators.  An option is [m, gen]: m       *)
(* columns made by gen; gen = [k, a, b, c].  Random generators are specified    *)
(* by the set of values they may write.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOpts, MaxLines, Gens, Mult
VARIABLES opts, n, head, o, left, cols, line, row, out, phase
vars == <<opts, n, head, o, left, cols, line, row, out, phase>>
Given == ndJsonDeserialize("given.ndjson")
GenOf(k) == [k |-> k, a |-> 2, b |-> 3, c |-> -1]
Options == {[m |-> m, gen |-> GenOf(k)] : m \in Mult, k \in Gens}
Start(os, num, hd) == /\ opts = os /\ n = num /\ head = hd /\ o = 1 /\ left = IF os = <<>> THEN 0 ELSE os[1].m
                      /\ cols = <<>> /\ line = 1 /\ row = <<>> /\ out = <<>> /\ phase = "options"
Init == \/ \E len \in 0..MaxOpts : \E os \in [1..len -> Options], num \in 0..MaxLines, hd \in BOOLEAN : Start(os, num, hd)
        \/ \E i \in 1..Len(Given) : Start(Given[i].opts, Given[i].n, Given[i].head)

\* ------------------------- the code's way ---------------------------------
\* one more column of the option at hand
More == /\ phase = "options" /\ o <= Len(opts) /\ left > 0
        /\ cols' = Append(cols, opts[o].gen) /\ left' = left - 1 /\ UNCHANGED <<opts, n, head, o, line, row, out, phase>>
NextOpt == /\ phase = "options" /\ o <= Len(opts) /\ left = 0
           /\ o' = o + 1 /\ left' = (IF o < Len(opts) THEN opts[o + 1].m ELSE 0)
           /\ UNCHANGED <<opts, n, head, cols, line, row, out, phase>>
\* without any column the grid is shown
Ready == /\ phase = "options" /\ o > Len(opts) /\ phase' = "write"
         /\ cols' = (IF cols = <<>> THEN <<[k |-> "grid", a |-> 0, b |-> 0, c |-> 0]>> ELSE cols)
         /\ UNCHANGED <<opts, n, head, o, left, line, row, out>>
Empty == [t |-> "empty", x |-> 0, y |-> 0]
Pair(x, y) == [t |-> "pair", x |-> x, y |-> y]
Num(x) == [t |-> "num", x |-> x, y |-> 0]
\* any decimal of x digits before and y after the point; any number around x, spread by y
Decimal(x, y) == [t |-> "decimal", x |-> x, y |-> y]
Normal(x, y) == [t |-> "normal", x |-> x, y |-> y]
Value(g, i, j) == CASE g.k = "null" -> Empty
                    [] g.k = "grid" -> Pair(i, j)
                    [] g.k = "count" -> Num((i + g.c) - 1)
                    [] g.k = "expr" -> Num((g.a * i) + (g.b * j) + g.c)
                    [] g.k = "decimal" -> Decimal(g.a, g.b)
                    [] g.k = "normal" -> Normal(g.a, g.b)
Cell == /\ phase = "write" /\ line <= n /\ Len(row) < Len(cols)
        /\ row' = Append(row, Value(cols[Len(row) + 1], line, Len(row) + 1))
        /\ UNCHANGED <<opts, n, head, o, left, cols, line, out, phase>>
EndLine == /\ phase = "write" /\ line <= n /\ Len(row) = Len(cols)
           /\ out' = Append(out, row) /\ row' = <<>> /\ line' = line + 1
           /\ UNCHANGED <<opts, n, head, o, left, cols, phase>>
Finish == phase = "write" /\ line > n /\ phase' = "done" /\ UNCHANGED <<opts, n, head, o, left, cols, line, row, out>>
Next == More \/ NextOpt \/ Ready \/ Cell \/ EndLine \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------- the meaning --------------------------------
RECURSIVE Before(_)
Before(i) == IF i = 0 THEN 0 ELSE opts[i].m + Before(i - 1)
Width == IF Before(Len(opts)) = 0 THEN 1 ELSE Before(Len(opts))
\* the option that column j comes from
From(j) == CHOOSE i \in 1..Len(opts) : Before(i - 1) < j /\ j <= Before(i)
Table == phase = "done" =>
  /\ Len(out) = n
  /\ \A i \in 1..n : Len(out[i]) = Width
  /\ \A i \in 1..n, j \in 1..Width :
       IF Before(Len(opts)) = 0 THEN out[i][j] = Pair(i, j)
       ELSE LET g == opts[From(j)].gen
            IN CASE g.k = "grid" -> out[i][j] = Pair(i, j)
                 [] g.k = "null" -> out[i][j].t = "empty"
                 \* consecutive numbers, the first as asked for
                 [] g.k = "count" -> /\ i = 1 => out[i][j].x = g.c
                                     /\ i > 1 => out[i][j].x = out[i - 1][j].x + 1
                 \* the expression at this line and column
                 [] g.k = "expr" -> out[i][j].x = ((g.a * i) + (g.b * j)) + g.c
                 [] OTHER -> out[i][j] = [t |-> g.k, x |-> g.a, y |-> g.b]
Terminates == <>(phase = "done")
Emit == phase = "done" => PrintT(ToJson([opts |-> opts, n |-> n, head |-> head, width |-> Len(cols), out |-> out]))
================================================================================
