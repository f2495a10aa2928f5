------------------------------- MODULE Columns -------------------------------
(***************************************************************************)
(* Column selection: ColumnSet of src/column.rs resolved against the columns  *)
(* of each input file, the output header built by ColumnHeader, and the       *)
(* pieces (fields, group, composite) cut writes for every line.               *)
(* A column name is a sequence: a base letter and possibly digits.            *)
(* An item is [neg, kind, a, b, as]: kinds one (a), span (a-b), from (a-),    *)
(* upto (-b), all (-), match (every column whose name starts with base a).    *)
(* An end point is [k, v]: num n, end n (+n), name.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Widths, MaxItems, Negs
VARIABLES files, pieces, dups, heads, f, res, phase
vars == <<files, pieces, dups, heads, f, res, phase>>

Given == ndJsonDeserialize("given.ndjson")
Base(n) == <<n>>                                  \* names of the exhaustive universe: a, b, c
Cols(n) == [i \in 1..n |-> Base(i)]
Ends(n) == {[k |-> "num", v |-> i] : i \in 1..n} \cup {[k |-> "end", v |-> i] : i \in 1..n + 1}
           \cup {[k |-> "name", v |-> Base(i)] : i \in 1..n + 1}
Nope == [k |-> "num", v |-> 1]
Items(n) == {[neg |-> g, kind |-> "one", a |-> e, b |-> Nope, as |-> <<>>] : e \in Ends(n), g \in Negs}
            \cup {[neg |-> g, kind |-> "span", a |-> e, b |-> h, as |-> <<>>] : e \in Ends(n), h \in Ends(n), g \in Negs}
            \cup {[neg |-> g, kind |-> "from", a |-> e, b |-> Nope, as |-> <<>>] : e \in Ends(n), g \in Negs}
            \cup {[neg |-> g, kind |-> "upto", a |-> Nope, b |-> e, as |-> <<>>] : e \in Ends(n), g \in Negs}
            \cup {[neg |-> g, kind |-> "all", a |-> Nope, b |-> Nope, as |-> <<>>] : g \in Negs}
            \cup {[neg |-> g, kind |-> "match", a |-> [k |-> "name", v |-> Base(i)], b |-> Nope, as |-> <<>>] : i \in 1..n + 1, g \in Negs}
ItemSeqs(n) == UNION {[1..m -> Items(n)] : m \in 1..MaxItems}

Start(fs, ps, d, h) == files = fs /\ pieces = ps /\ dups = d /\ heads = h /\ f = 1 /\ res = <<>> /\ phase = "file"
Init == \/ \E n \in Widths : \E s \in ItemSeqs(n), d \in {"fail", "numeric"} :
              Start(<<Cols(n)>>, <<[kind |-> "f", name |-> <<>>, items |-> s]>>, d, TRUE)
        \/ \E n \in 1..Len(Given) : Start(Given[n].files, Given[n].pieces, Given[n].dups, Given[n].heads)

\* ------------------------- the code's way ---------------------------------
Fail == [bad |-> TRUE]
Has(cols, name) == \E i \in 1..Len(cols) : cols[i] = name
Where(cols, name) == CHOOSE i \in 1..Len(cols) : cols[i] = name /\ \A j \in 1..i - 1 : cols[j] # name
\* 0 means an error
Single(cols, e) == CASE e.k = "num" -> e.v
                     [] e.k = "end" -> IF e.v > Len(cols) \/ e.v = 0 THEN 0 ELSE Len(cols) + 1 - e.v
                     [] e.k = "name" -> IF Has(cols, e.v) THEN Where(cols, e.v) ELSE 0
Span(a, b) == [i \in 1..b - a + 1 |-> a + i - 1]
IsPre(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Range(cols, it) ==
  CASE it.kind = "match" -> SelectSeq(Span(1, Len(cols)), LAMBDA i : IsPre(it.a.v, cols[i]))
    [] OTHER -> LET lo == IF it.kind \in {"upto", "all"} THEN 1 ELSE Single(cols, it.a)
                    hi == CASE it.kind = "one" -> lo
                            [] it.kind \in {"from", "all"} -> Len(cols)
                            [] OTHER -> Single(cols, it.b)
                IN IF lo = 0 \/ hi = 0 \/ lo > hi THEN <<0>> ELSE Span(lo, hi)
RECURSIVE Bars(_, _, _)
Bars(cols, items, no) == IF items = <<>> THEN no
                         ELSE Bars(cols, Tail(items), IF Head(items).neg
                                THEN no \cup {Range(cols, Head(items))[i] : i \in 1..Len(Range(cols, Head(items)))} ELSE no)
RECURSIVE Yes(_, _, _)
Yes(cols, items, no) ==
  IF items = <<>> THEN <<>>
  ELSE LET it == Head(items)
           r == SelectSeq(Range(cols, it), LAMBDA i : i \notin no)
       IN (IF it.neg THEN <<>> ELSE [i \in 1..Len(r) |-> [col |-> r[i], as |-> it.as]]) \o Yes(cols, Tail(items), no)
\* resolved columns, or <<[col |-> 0, ...]>> if something could not be resolved
Lookup(cols, items) ==
  LET no == Bars(cols, items, {})
      anyYes == \E i \in 1..Len(items) : ~items[i].neg
      all == [i \in 1..Len(cols) |-> [col |-> i, as |-> <<>>]]
      y == IF anyYes THEN Yes(cols, items, no) ELSE SelectSeq(all, LAMBDA o : o.col \notin no)
  IN IF 0 \in no THEN <<[col |-> 0, as |-> <<>>]>> ELSE y
Broken(r) == \E i \in 1..Len(r) : r[i].col = 0

\* header: one name after the other, duplicates by the chosen rule; <<>> is kept for "cannot"
RECURSIVE Free(_, _, _)
Free(have, name, x) == IF Has(have, Append(name, x)) THEN Free(have, name, x + 1) ELSE Append(name, x)
RECURSIVE Names(_, _)
Names(want, have) ==
  IF want = <<>> THEN have
  ELSE IF ~Has(have, Head(want)) THEN Names(Tail(want), Append(have, Head(want)))
  ELSE CASE dups = "fail" -> <<<<>>>>
         [] dups = "allow" -> Names(Tail(want), Append(have, Head(want)))
         [] dups = "numeric" -> Names(Tail(want), Append(have, Free(have, Head(want), 1)))
NameOf(cols, o) == IF o.as # <<>> THEN o.as ELSE cols[o.col]
Wanted(cols, p) == IF p.kind = "f" THEN LET r == Lookup(cols, p.items) IN [i \in 1..Len(r) |-> NameOf(cols, r[i])]
                   ELSE <<p.name>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Nums(r) == [i \in 1..Len(r) |-> r[i].col]
\* what one line becomes: per piece the columns it is made of
Cells(cols) == [n \in 1..Len(pieces) |-> Nums(Lookup(cols, pieces[n].items))]
File ==
  /\ phase = "file"
  /\ LET cols == files[f]
         bad == \E n \in 1..Len(pieces) : Broken(Lookup(cols, pieces[n].items))
         h == IF bad THEN <<<<>>>> ELSE Names(Flat([n \in 1..Len(pieces) |-> Wanted(cols, pieces[n])]), <<>>)
     IN IF bad \/ h = <<<<>>>> THEN phase' = "failed" /\ UNCHANGED <<f, res>>
        ELSE IF heads /\ f > 1 /\ h # res[1].head THEN phase' = "failed" /\ UNCHANGED <<f, res>>
        ELSE /\ res' = Append(res, [head |-> h, cells |-> Cells(cols)])
             /\ f' = f + 1 /\ phase' = IF f = Len(files) THEN "done" ELSE "file"
  /\ UNCHANGED <<files, pieces, dups, heads>>
Next == File
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------- meaning --------------------------------
Denotes(cols, e) == CASE e.k = "num" -> {e.v}
                      [] e.k = "end" -> {i \in 1..Len(cols) : Len(cols) - i = e.v - 1}
                      [] e.k = "name" -> {i \in 1..Len(cols) : cols[i] = e.v}
Covers(cols, it) ==
  CASE it.kind = "one" -> Denotes(cols, it.a)
    [] it.kind = "span" -> {i \in 1..400 : \E x \in Denotes(cols, it.a), y \in Denotes(cols, it.b) : x <= i /\ i <= y}
    [] it.kind = "from" -> {i \in 1..Len(cols) : \E x \in Denotes(cols, it.a) : x <= i}
    [] it.kind = "upto" -> {i \in 1..400 : \E y \in Denotes(cols, it.b) : i <= y}
    [] it.kind = "all" -> 1..Len(cols)
    [] it.kind = "match" -> {i \in 1..Len(cols) : IsPre(it.a.v, cols[i])}
NoSet(cols, items) == UNION {IF items[k].neg THEN Covers(cols, items[k]) ELSE {} : k \in 1..Len(items)}
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
RECURSIVE YesSeq(_, _, _)
YesSeq(cols, items, no) == IF items = <<>> THEN <<>>
                           ELSE (IF Head(items).neg THEN <<>> ELSE Asc(Covers(cols, Head(items)) \ no)) \o YesSeq(cols, Tail(items), no)
Means(cols, items) == LET no == NoSet(cols, items)
                      IN IF \A k \in 1..Len(items) : items[k].neg THEN Asc((1..Len(cols)) \ no) ELSE YesSeq(cols, items, no)
CellsRight == \A n \in 1..Len(res) : \A p \in 1..Len(pieces) : res[n].cells[p] = Means(files[n], pieces[p].items)
NamesRight == \A n \in 1..Len(res) :
                LET h == res[n].head IN
                /\ Len(h) = Len(Flat([p \in 1..Len(pieces) |-> IF pieces[p].kind = "f" THEN res[n].cells[p] ELSE <<0>>]))
                /\ dups # "allow" => \A i, j \in 1..Len(h) : h[i] = h[j] => i = j
                /\ heads => h = res[1].head
\* fails only for a reason: something names no column, a range is empty, a name would repeat, headers differ
FailsRight == phase = "failed" =>
                \/ \E p \in 1..Len(pieces), k \in 1..100 : k <= Len(pieces[p].items) /\ Covers(files[f], pieces[p].items[k]) = {}
                      /\ pieces[p].items[k].kind # "match"
                \/ dups = "fail"
                \/ f > 1
Terminates == <>(phase # "file")
Emit == phase # "file" => PrintT(ToJson([files |-> files, pieces |-> pieces, dups |-> dups, heads |-> heads, ok |-> phase = "done", res |-> res]))
=============================================================================
