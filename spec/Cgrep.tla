-------------------------------- MODULE Cgrep --------------------------------
(***************************************************************************)
(* cdx cgrep (src/bin/cdx/cgrep_main.rs, LineMatcherList and the line         *)
(* matchers of src/matcher.rs).  A file is a sequence of lines, a line        *)
(* [cells, len]: its cells (values 0..3, 0 being the empty text, and also     *)
(* what a column beyond the end of a line reads as) and its length in bytes.  *)
(* A matcher is [kind, neg, hits, cols, det, num, den, tgt, op]:              *)
(*   col    the cell of column cols[1] is in hits                             *)
(*   set    the determiner over the columns cols, of being in hits            *)
(*   comp   the determiner over cols, of  cell tgt  OP  cell of that column   *)
(*   whole  the line is exactly the cells hits                                *)
(*   count  the line has num columns                                          *)
(* A determiner with a threshhold compares with num (den = 0) or num/den.     *)
(* The machine evaluates the way the code does, leaving each loop as soon as  *)
(* the answer is known.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Width, Dets, Nums
VARIABLES tag, files, hdr, ms, anyof, invert, f, i, m, x, yes, no, pos, out, phase
vars == <<tag, files, hdr, ms, anyof, invert, f, i, m, x, yes, no, pos, out, phase>>
Given == ndJsonDeserialize("given.ndjson")
Start(g, fs, h, l, a, v) == /\ tag = g /\ files = fs /\ hdr = h /\ ms = l /\ anyof = a /\ invert = v
                            /\ f = 1 /\ i = 0 /\ m = 1 /\ x = 1 /\ yes = 0 /\ no = 0 /\ pos = 0 /\ out = <<>> /\ phase = "open"
Thresh == {"atmost", "atleast", "exactly", "atmostno", "atleastno", "exactlyno"}
Grid == {[cells |-> r, len |-> 2 * Width] : r \in [1..Width -> {1, 2}]}
Init == \/ \E r \in Grid, d \in Dets, n \in Nums, e \in {0, 2, 4}, g \in BOOLEAN, v \in BOOLEAN :
             /\ (d \notin Thresh => n = 0 /\ e = 0) /\ (e > 0 => n <= e)
             /\ Start(0, <<<<r>>>>, 0, <<[kind |-> "set", neg |-> g, hits |-> <<1>>, cols |-> [c \in 1..Width |-> c], det |-> d, num |-> n, den |-> e, tgt |-> 1, op |-> "EQ"]>>, FALSE, v)
        \/ \E n \in 1..Len(Given) : LET g == Given[n] IN Start(g.tag, g.files, g.hdr, g.ms, g.anyof, g.invert)

L == files[f][i]
Cell(c) == IF c <= Len(L.cells) THEN L.cells[c] ELSE 0
In(v, s) == \E j \in 1..Len(s) : s[j] = v
Op(o, a, b) == CASE o = "LT" -> a < b [] o = "LE" -> a <= b [] o = "GT" -> a > b [] o = "GE" -> a >= b [] o = "EQ" -> a = b [] o = "NE" -> a # b
Hit(k, c) == IF k.kind = "comp" THEN Op(k.op, Cell(k.tgt), Cell(c)) ELSE In(Cell(c), k.hits)

\* ------------------------- determiners, as coded -------------------------
\* decided with more columns to come? "yes", "no" or "maybe"
NoIf(b) == IF b THEN "no" ELSE "maybe"
YesIf(b) == IF b THEN "yes" ELSE "maybe"
Mid(k, y, n) ==
  CASE k.det = "all" -> NoIf(n > 0)
    [] k.det = "some" -> YesIf(y > 0)
    [] k.det = "none" -> NoIf(y > 0)
    [] k.det = "notall" -> YesIf(n > 0)
    [] k.det = "mixed" -> YesIf(y > 0 /\ n > 0)
    [] k.det = "uniform" -> NoIf(y > 0 /\ n > 0)
    [] k.den # 0 -> "maybe"
    [] k.det \in {"atmost", "exactly"} -> NoIf(y > k.num)
    [] k.det = "atleast" -> YesIf(y >= k.num)
    [] k.det \in {"atmostno", "exactlyno"} -> NoIf(n > k.num)
    [] k.det = "atleastno" -> YesIf(n >= k.num)
\* num/den of the columns: the nearest whole number of columns, ties as in src/num.rs
AtMost(k, c, t) == IF k.den = 0 THEN c <= k.num ELSE 2 * k.num * t > (2 * c - 1) * k.den
AtLeast(k, c, t) == IF k.den = 0 THEN c >= k.num ELSE 2 * k.num * t < (2 * c + 1) * k.den
Exactly(k, c, t) == IF k.den = 0 THEN c = k.num ELSE 2 * k.num * t >= (2 * c - 1) * k.den /\ 2 * k.num * t < (2 * c + 1) * k.den
Final(k, y, n) ==
  CASE k.det = "all" -> n = 0
    [] k.det = "some" -> y > 0
    [] k.det = "none" -> y = 0
    [] k.det = "notall" -> n > 0
    [] k.det = "mixed" -> y > 0 /\ n > 0
    [] k.det = "uniform" -> y = 0 \/ n = 0
    [] k.det = "atmost" -> AtMost(k, y, y + n)
    [] k.det = "atleast" -> AtLeast(k, y, y + n)
    [] k.det = "exactly" -> Exactly(k, y, y + n)
    [] k.det = "atmostno" -> AtMost(k, n, y + n)
    [] k.det = "atleastno" -> AtLeast(k, n, y + n)
    [] k.det = "exactlyno" -> Exactly(k, n, y + n)

\* -------------------------------- machine --------------------------------
Same == UNCHANGED <<tag, files, hdr, ms, anyof, invert>>
FileStep == /\ phase = "open"
            /\ IF f > Len(files) THEN phase' = "done" /\ UNCHANGED <<f, i, pos>>
               ELSE IF files[f] = <<>> THEN f' = f + 1 /\ UNCHANGED <<i, pos, phase>>
               ELSE i' = 1 /\ pos' = hdr /\ phase' = "match" /\ UNCHANGED f
            /\ m' = 1 /\ x' = 1 /\ yes' = 0 /\ no' = 0 /\ UNCHANGED out /\ Same
\* the answer for this line is known
Settle(b) == /\ out' = IF b # invert THEN Append(out, [file |-> f, line |-> i, pos |-> pos]) ELSE out
             /\ pos' = pos + L.len /\ m' = 1 /\ x' = 1 /\ yes' = 0 /\ no' = 0
             /\ IF i < Len(files[f]) THEN i' = i + 1 /\ UNCHANGED <<f, phase>> ELSE f' = f + 1 /\ i' = 0 /\ phase' = "open"
\* the answer of matcher m is known
Answer(b) == IF b = anyof THEN Settle(b) ELSE m' = m + 1 /\ x' = 1 /\ yes' = 0 /\ no' = 0 /\ UNCHANGED <<f, i, pos, out, phase>>
LineStep == /\ phase = "match" /\ Same
            /\ IF m > Len(ms) THEN Settle(~anyof)
               ELSE LET k == ms[m] IN
                 CASE k.kind = "col" -> Answer(k.neg # Hit(k, k.cols[1]))
                   [] k.kind = "whole" -> Answer(k.neg # (L.cells = k.hits))
                   [] k.kind = "count" -> Answer(Len(L.cells) = k.num)
                   [] OTHER -> IF x > Len(k.cols) THEN Answer(k.neg # Final(k, yes, no))
                               ELSE LET h == Hit(k, k.cols[x])
                                        y2 == yes + (IF h THEN 1 ELSE 0)
                                        n2 == no + (IF h THEN 0 ELSE 1)
                                        r == Mid(k, y2, n2)
                                    IN IF r = "maybe" THEN x' = x + 1 /\ yes' = y2 /\ no' = n2 /\ UNCHANGED <<f, i, m, pos, out, phase>>
                                       ELSE Answer(k.neg # (r = "yes"))
Next == FileStep \/ LineStep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* -------------------------------- meaning --------------------------------
CellOf(l, c) == IF c <= Len(l.cells) THEN l.cells[c] ELSE 0
HitOf(k, l, c) == IF k.kind = "comp" THEN Op(k.op, CellOf(l, k.tgt), CellOf(l, c)) ELSE In(CellOf(l, c), k.hits)
Count(k, l, b) == Cardinality({j \in 1..Len(k.cols) : HitOf(k, l, k.cols[j]) = b})
\* a fraction num/den of t columns means the nearest whole number of columns
Holds(k, l) ==
  LET y == Count(k, l, TRUE)
      n == Count(k, l, FALSE)
      t == Len(k.cols)
      c == IF k.det \in {"atmostno", "atleastno", "exactlyno"} THEN n ELSE y
      want == 2 * k.num * t
  IN CASE k.det = "all" -> y = t [] k.det = "some" -> y >= 1 [] k.det = "none" -> n = t [] k.det = "notall" -> n >= 1
       [] k.det = "mixed" -> y \in 1..(t - 1) [] k.det = "uniform" -> y \in {0, t}
       [] k.den = 0 /\ k.det \in {"atmost", "atmostno"} -> c \in 0..k.num
       [] k.den = 0 /\ k.det \in {"atleast", "atleastno"} -> c \notin 0..(k.num - 1)
       [] k.den = 0 -> c = k.num
       [] k.det \in {"atmost", "atmostno"} -> \A b \in 0..c : want > (2 * b - 1) * k.den
       [] k.det \in {"atleast", "atleastno"} -> \A b \in c..t : want < (2 * b + 1) * k.den
       [] OTHER -> \A b \in (0..t) \ {c} : IF b < c THEN want >= (b + c) * k.den ELSE want < (b + c) * k.den
Ok(k, l) == CASE k.kind = "col" -> k.neg # In(CellOf(l, k.cols[1]), k.hits)
              [] k.kind = "whole" -> k.neg # (l.cells = k.hits)
              [] k.kind = "count" -> Len(l.cells) = k.num
              [] OTHER -> k.neg # Holds(k, l)
Selected(l) == invert # (IF anyof THEN \E j \in 1..Len(ms) : Ok(ms[j], l) ELSE \A j \in 1..Len(ms) : Ok(ms[j], l))
RECURSIVE Sum(_, _)
Sum(ls, n) == IF n = 0 THEN 0 ELSE Sum(ls, n - 1) + ls[n].len
RECURSIVE Picks(_, _)
Picks(a, n) == IF n = 0 THEN <<>> ELSE Picks(a, n - 1) \o (IF Selected(files[a][n]) THEN <<[file |-> a, line |-> n, pos |-> hdr + Sum(files[a], n - 1)]>> ELSE <<>>)
RECURSIVE All(_)
All(a) == IF a = 0 THEN <<>> ELSE All(a - 1) \o Picks(a, Len(files[a]))
Right == phase = "done" => out = All(Len(files))
Terminates == <>(phase = "done")
Emit == phase = "done" => PrintT(ToJson([tag |-> tag, files |-> files, hdr |-> hdr, ms |-> ms, anyof |-> anyof, invert |-> invert, out |-> out]))
=============================================================================
