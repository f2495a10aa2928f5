--------------------------------- MODULE Tabs ---------------------------------
(***************************************************************************)
(* cdx tabs (src/tabs.rs, src/bin/cdx/tabs_main.rs): files laid out in aligned *)
(* columns on a screen of W columns and H lines.  A cell is a sequence of       *)
(* character widths (1, or 2 for wide characters).  Several files share the     *)
(* lines of the screen.  Which of several equally wide columns gives way first   *)
(* is left open: the step takes any of them.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxRows, MaxCols, MaxWidth, Ws, Hs
VARIABLES files, W, H, f, left, shown, sizes, out, phase
vars == <<files, W, H, f, left, shown, sizes, out, phase>>
Given == ndJsonDeserialize("given.ndjson")
Ones(n) == [i \in 1..n |-> 1]
Row == UNION {[1..n -> {Ones(w) : w \in 0..MaxWidth}] : n \in 1..MaxCols}
RowsOf == UNION {[1..n -> Row] : n \in 0..MaxRows}
N == Len(files)
MinOf(a, b) == IF a < b THEN a ELSE b
Minus(a, b) == IF a < b THEN 0 ELSE a - b
\* lines left for the contents: with several files each has a title, and a rule between them
Room(fs, h) == IF Len(fs) = 1 THEN h ELSE Minus(h + 1, 2 * Len(fs))
Start(fs, w, h) == /\ files = fs /\ W = w /\ H = h /\ f = 1 /\ left = Room(fs, h)
                   /\ shown = 0 /\ sizes = <<>> /\ out = <<>> /\ phase = "read"
Init == \/ \E rows \in RowsOf, w \in Ws, h \in Hs : \E hd \in (IF rows # <<>> THEN BOOLEAN ELSE {FALSE}) :
             /\ hd => \A i \in 1..Len(rows[1]) : rows[1][i] # <<>>
             /\ Start(<<[h |-> hd, rows |-> rows]>>, w, h)
        \/ \E n \in 1..Len(Given) : Start(Given[n].files, Given[n].w, Given[n].h)

\* ------------------------- the code's way ---------------------------------
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Share == left \div (N + 1 - f)
Cur == files[f]
\* a header is always shown; other lines while there is room
Read == /\ phase = "read" /\ f <= N
        /\ IF shown < Len(Cur.rows) /\ (shown < Share \/ (shown = 0 /\ Cur.h))
           THEN /\ shown' = shown + 1
                \* the widths seen so far, a longer line adds columns
                /\ sizes' = [i \in 1..(IF Len(sizes) > Len(Cur.rows[shown + 1]) THEN Len(sizes) ELSE Len(Cur.rows[shown + 1])) |->
                               LET old == IF i <= Len(sizes) THEN sizes[i] ELSE 0
                                   new == IF i <= Len(Cur.rows[shown + 1]) THEN Sum(Cur.rows[shown + 1][i]) ELSE 0
                               IN IF old < new THEN new ELSE old]
                /\ phase' = phase
           ELSE phase' = "fit" /\ UNCHANGED <<shown, sizes>>
        /\ UNCHANGED <<files, W, H, f, left, out>>
Fits == Sum(sizes) <= Minus(W, Len(sizes))
Shrink == /\ phase = "fit" /\ ~Fits
          /\ \E i \in 1..Len(sizes) : /\ \A j \in 1..Len(sizes) : sizes[j] <= sizes[i]
                                      /\ sizes' = [sizes EXCEPT ![i] = @ - 1]
          /\ UNCHANGED <<files, W, H, f, left, shown, out, phase>>
\* the number of characters of a cell that fit, taken one at a time
RECURSIVE Take(_, _)
Take(cell, room) == IF cell = <<>> \/ cell[1] > room THEN 0 ELSE 1 + Take(Tail(cell), room - cell[1])
Lay == /\ phase = "fit" /\ Fits
         /\ out' = Append(out, [sizes |-> sizes,
                                lines |-> [r \in 1..shown |-> [i \in 1..Len(Cur.rows[r]) |-> Take(Cur.rows[r][i], sizes[i])]]])
         /\ left' = Minus(left, shown) /\ f' = f + 1 /\ shown' = 0 /\ sizes' = <<>> /\ phase' = "read"
         /\ UNCHANGED <<files, W, H>>
Finish == phase = "read" /\ f > N /\ phase' = "done" /\ UNCHANGED <<files, W, H, f, left, shown, sizes, out>>
Next == Read \/ Shrink \/ Lay \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------- the meaning --------------------------------
MaxSet(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Widths(k, n, i) == {Sum(files[k].rows[r][i]) : r \in {r \in 1..n : i <= Len(files[k].rows[r])}}
Cols(k, n) == MaxSet({Len(files[k].rows[r]) : r \in 1..n})
Want(k, i) == MaxSet(Widths(k, Len(out[k].lines), i))
\* the columns fit the screen, use all of it before anything is cut, and what is cut is shared out evenly
LaidOut == \A k \in 1..Len(out) :
  LET s == out[k].sizes
      n == Len(out[k].lines)
      wants == [i \in 1..Len(s) |-> Want(k, i)]
  IN /\ Len(s) = Cols(k, n)
     /\ \A i \in 1..Len(s) : s[i] <= wants[i]
     /\ Sum(s) = MinOf(Sum(wants), Minus(W, Len(s)))
     /\ \A i, j \in 1..Len(s) : s[i] < wants[i] => s[j] <= s[i] + 1
\* every line shown has the screen's width at most
NotWider == \A k \in 1..Len(out) : Len(out[k].sizes) <= W => Sum(out[k].sizes) + Len(out[k].sizes) <= W
\* a cell is cut only where it does not fit its column, and then as late as possible
RECURSIVE WidthTo(_, _)
WidthTo(cell, n) == IF n = 0 THEN 0 ELSE cell[n] + WidthTo(cell, n - 1)
CutRight == \A k \in 1..Len(out) : \A r \in 1..Len(out[k].lines) : \A i \in 1..Len(out[k].lines[r]) :
  LET cell == files[k].rows[r][i]
      n == out[k].lines[r][i]
  IN /\ WidthTo(cell, n) <= out[k].sizes[i]
     /\ n < Len(cell) => WidthTo(cell, n + 1) > out[k].sizes[i]
\* what is shown is the beginning of each file; one file alone has the whole screen, several have at least an equal
\* share each, and the screen is not overrun when every file has a line
Shown(k) == Len(out[k].lines)
RECURSIVE Total(_)
Total(k) == IF k = 0 THEN 0 ELSE Shown(k) + Total(k - 1)
HeadOnly(k, n) == IF files[k].h /\ n = 0 THEN 1 ELSE n
Lines == phase = "done" =>
  /\ Len(out) = N
  /\ N = 1 => Shown(1) = MinOf(Len(files[1].rows), HeadOnly(1, H))
  /\ N > 1 => /\ \A k \in 1..N : Shown(k) >= MinOf(Len(files[k].rows), Room(files, H) \div N)
              /\ Room(files, H) >= N => (Total(N) + 2 * N) - 1 <= H
Terminates == <>(phase = "done")
Emit == phase = "done" => PrintT(ToJson([files |-> files, w |-> W, h |-> H, out |-> out]))
================================================================================
