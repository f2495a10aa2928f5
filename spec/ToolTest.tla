------------------------------- MODULE ToolTest -------------------------------
(***************************************************************************)
(* cdx tooltest (src/tooltest.rs): a sequence of test files is run; each names *)
(* a command, what it is given (standard input, files) and what is expected of  *)
(* it (status, standard output and error, files).  A text is a sequence of      *)
(* letters with 0 for the end of a line; a test file is a sequence of lines.     *)
(* Shared = TRUE is the variant in which tests share one directory that is       *)
(* tidied only when a test comes to its end: kept to show what that breaks.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Texts, Codes, Small, Shared
VARIABLES tests, t, ln, into, got, dir, ran, bad, verdicts, phase
vars == <<tests, t, ln, into, got, dir, ran, bad, verdicts, phase>>
Given == ndJsonDeserialize("given.ndjson")

\* act: what the command does: does it exist, its status (-1: killed), what it writes, the files it makes,
\*      whether it leaves a directory; "stdin" / "infile": it copies its input after its own text
\* lines: [k |-> directive, name, m (how to match), text]; text lines follow their directive as [k |-> "text", text]
Directive(k, n, m, x) == [k |-> k, name |-> n, m |-> m, text |-> x]
TextLine(x) == Directive("text", "", "", x)
NoNewline == Directive("nonewline", "", "", <<>>)
\* the lines that say "exactly x"
RECURSIVE Cut(_, _)
Cut(x, cur) == IF x = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<TextLine(Append(cur, 0)), NoNewline>>)
               ELSE IF Head(x) = 0 THEN <<TextLine(Append(cur, 0))>> \o Cut(Tail(x), <<>>)
               ELSE Cut(Tail(x), Append(cur, Head(x)))
Block(k, n, x) == <<Directive(k, n, "", <<>>)>> \o Cut(x, <<>>)
SmallAct(c, o, e, f) == [exec |-> TRUE, code |-> c, out |-> o, err |-> e, files |-> f, mkdir |-> FALSE, copy |-> "none"]
SmallFiles == {<<>>} \cup {<<[name |-> n, text |-> x]>> : n \in {"p", "q"}, x \in Small}
SmallTests == {[act |-> SmallAct(c, o, e, f),
                lines |-> (IF s = 0 THEN <<>> ELSE <<Directive("status", "", "", <<s>>)>>)
                          \o Block("stdout", "", wo) \o (IF we = <<>> THEN <<>> ELSE Block("stderr", "", we))
                          \o (IF wf = <<>> THEN <<>> ELSE Block("outfile", "p", wf[1]))] :
                 c \in Codes, o \in Texts, e \in Small, f \in SmallFiles, s \in Codes, wo \in Texts, we \in Small, wf \in {<<>>} \cup {<<x>> : x \in Small}}
Nothing == [stdin |-> <<>>, status |-> 0, stdout |-> [m |-> "empty", text |-> <<>>], stderr |-> [m |-> "empty", text |-> <<>>],
            infiles |-> <<>>, outfiles |-> <<>>]
Start(ts) == /\ tests = ts /\ t = 1 /\ ln = 1 /\ into = "none" /\ got = Nothing /\ dir = {} /\ ran = FALSE /\ bad = FALSE
             /\ verdicts = <<>> /\ phase = "parse"
Init == \/ \E x \in SmallTests : Start(<<x>>)
        \/ \E n \in 1..Len(Given) : Start(Given[n].tests)

\* ------------------------- the code's way ---------------------------------
Test == tests[t]
Line == Test.lines[ln]
LastOf(s) == s[Len(s)]
AddTo(g, where, x) ==
  CASE where = "stdin" -> [g EXCEPT !.stdin = @ \o x]
    [] where = "stdout" -> [g EXCEPT !.stdout.text = @ \o x]
    [] where = "stderr" -> [g EXCEPT !.stderr.text = @ \o x]
    [] where = "infile" -> [g EXCEPT !.infiles = [@ EXCEPT ![Len(@)].text = @ \o x]]
    [] where = "outfile" -> [g EXCEPT !.outfiles = [@ EXCEPT ![Len(@)].text = @ \o x]]
    [] OTHER -> g
Chop(x) == IF x = <<>> THEN x ELSE SubSeq(x, 1, Len(x) - 1)
ChopIn(g, where) ==
  CASE where = "stdin" -> [g EXCEPT !.stdin = Chop(@)]
    [] where = "stdout" -> [g EXCEPT !.stdout.text = Chop(@)]
    [] where = "stderr" -> [g EXCEPT !.stderr.text = Chop(@)]
    [] where = "infile" -> [g EXCEPT !.infiles = [@ EXCEPT ![Len(@)].text = Chop(@)]]
    [] where = "outfile" -> [g EXCEPT !.outfiles = [@ EXCEPT ![Len(@)].text = Chop(@)]]
    [] OTHER -> g
Parse == /\ phase = "parse" /\ t <= Len(tests) /\ ln <= Len(Test.lines) /\ ln' = ln + 1
         /\ bad' = (Line.k = "junk") /\ phase' = (IF Line.k = "junk" THEN "verdict" ELSE phase)    \* no such directive
         /\ CASE Line.k = "text" -> got' = AddTo(got, into, Line.text) /\ into' = into
              [] Line.k = "nonewline" -> got' = ChopIn(got, into) /\ into' = "none"
              [] Line.k = "status" -> got' = [got EXCEPT !.status = Line.text[1]] /\ into' = "none"
              [] Line.k = "stdin" -> got' = got /\ into' = "stdin"
              [] Line.k = "infile" -> got' = [got EXCEPT !.infiles = Append(@, [name |-> Line.name, text |-> <<>>])] /\ into' = "infile"
              [] Line.k \in {"stdout", "stderr"} ->
                   /\ got' = [got EXCEPT ![Line.k] = [m |-> IF Line.m = "" THEN "exact" ELSE Line.m, text |-> Line.text]]
                   /\ into' = IF Line.m = "" THEN Line.k ELSE "none"
              [] Line.k = "outfile" ->
                   /\ got' = [got EXCEPT !.outfiles = Append(@, [name |-> Line.name, m |-> IF Line.m = "" THEN "exact" ELSE Line.m, text |-> Line.text])]
                   /\ into' = IF Line.m = "" THEN "outfile" ELSE "none"
              [] OTHER -> got' = got /\ into' = "none"      \* a comment
         /\ UNCHANGED <<tests, t, dir, ran, verdicts>>
SeqSet(s) == {s[i] : i \in 1..Len(s)}
Parsed == /\ phase = "parse" /\ t <= Len(tests) /\ ln > Len(Test.lines)
          \* its own empty directory, or whatever is there
          /\ dir' = (IF Shared THEN dir ELSE {}) \cup SeqSet(got.infiles)
          /\ phase' = "run" /\ UNCHANGED <<tests, t, ln, into, got, ran, bad, verdicts>>
InText == IF got.infiles = <<>> THEN <<>> ELSE got.infiles[1].text
Output == Test.act.out \o (CASE Test.act.copy = "stdin" -> got.stdin [] Test.act.copy = "infile" -> InText [] OTHER -> <<>>)
Run == /\ phase = "run"
       /\ IF Test.act.exec
          THEN /\ dir' = (dir \cup SeqSet(Test.act.files)) \cup (IF Test.act.mkdir THEN {[name |-> "d", text |-> <<-1>>]} ELSE {})
               /\ ran' = TRUE /\ phase' = "compare" /\ bad' = bad
          ELSE UNCHANGED <<dir, ran>> /\ bad' = TRUE /\ phase' = "verdict"
       /\ UNCHANGED <<tests, t, ln, into, got, verdicts>>
\* the matchers, position by position
RECURSIVE Begins(_, _)
Begins(p, x) == p = <<>> \/ (x # <<>> /\ Head(p) = Head(x) /\ Begins(Tail(p), Tail(x)))
RECURSIVE Somewhere(_, _)
Somewhere(p, x) == Begins(p, x) \/ (x # <<>> /\ Somewhere(p, Tail(x)))
Accepts(w, x) == CASE w.m = "exact" -> x = w.text
                   [] w.m = "empty" -> x = <<>>
                   [] w.m = "prefix" -> Begins(w.text, x)
                   [] w.m = "infix" -> Somewhere(w.text, x)
                   [] w.m = "suffix" -> Len(w.text) <= Len(x) /\ SubSeq(x, Len(x) - Len(w.text) + 1, Len(x)) = w.text
Names(S) == {x.name : x \in S}
Compare == /\ phase = "compare" /\ phase' = "files"
           /\ bad' = (Test.act.code # got.status \/ ~Accepts(got.stderr, Test.act.err) \/ ~Accepts(got.stdout, Output))
           /\ dir' = {x \in dir : x.name \notin Names(SeqSet(got.infiles))}
           /\ UNCHANGED <<tests, t, ln, into, got, ran, verdicts>>
\* the expected files one by one: compared and removed; the first missing one ends the test
Files == /\ phase = "files"
         /\ IF got.outfiles # <<>>
            THEN LET w == Head(got.outfiles)
                     have == {x \in dir : x.name = w.name}
                 IN IF have = {} THEN bad' = TRUE /\ phase' = "verdict" /\ UNCHANGED <<dir, got>>
                    ELSE /\ bad' = (bad \/ \E x \in have : ~Accepts(w, x.text))
                         /\ dir' = dir \ have /\ got' = [got EXCEPT !.outfiles = Tail(@)] /\ phase' = phase
            \* nothing else may be left; a directory cannot be removed like a file
            ELSE /\ bad' = (bad \/ dir # {}) /\ dir' = {x \in dir : x.text = <<-1>>} /\ phase' = "verdict" /\ got' = got
         /\ UNCHANGED <<tests, t, ln, into, ran, verdicts>>
Verdict == /\ phase = "verdict" /\ verdicts' = Append(verdicts, ~bad) /\ bad' = FALSE /\ ran' = FALSE /\ t' = t + 1 /\ ln' = 1
           /\ into' = "none" /\ got' = Nothing /\ phase' = "parse" /\ UNCHANGED <<tests, dir>>
Report == phase = "parse" /\ t > Len(tests) /\ phase' = "done" /\ UNCHANGED <<tests, t, ln, into, got, dir, ran, bad, verdicts>>
Next == Parse \/ Parsed \/ Run \/ Compare \/ Files \/ Verdict \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------- the meaning --------------------------------
\* the text under directive i: the text lines up to the next directive, less the last newline if so told
RECURSIVE Under(_, _)
Under(ls, i) == IF i > Len(ls) THEN <<>>
                ELSE IF ls[i].k = "text" THEN ls[i].text \o Under(ls, i + 1)
                ELSE <<>>
RECURSIVE EndOf(_, _)
EndOf(ls, i) == IF i <= Len(ls) /\ ls[i].k = "text" THEN EndOf(ls, i + 1) ELSE i
TextAt(ls, i) == LET x == Under(ls, i + 1)
                     e == EndOf(ls, i + 1)
                 IN IF e <= Len(ls) /\ ls[e].k = "nonewline" THEN Chop(x) ELSE x
At(ls, k) == {i \in 1..Len(ls) : ls[i].k = k}
Last(S) == CHOOSE x \in S : \A y \in S : y <= x
Wanted(ls, i) == IF ls[i].m = "" THEN [m |-> "exact", text |-> TextAt(ls, i)] ELSE [m |-> ls[i].m, text |-> ls[i].text]
WantOf(ls, k) == IF At(ls, k) = {} THEN [m |-> "exact", text |-> <<>>] ELSE Wanted(ls, Last(At(ls, k)))
StatusOf(ls) == IF At(ls, "status") = {} THEN 0 ELSE ls[Last(At(ls, "status"))].text[1]
FirstOf(S) == CHOOSE x \in S : \A y \in S : x <= y
StdinOf(ls) == IF At(ls, "stdin") = {} THEN <<>> ELSE TextAt(ls, FirstOf(At(ls, "stdin")))
InfileOf(ls) == IF At(ls, "infile") = {} THEN <<>> ELSE TextAt(ls, FirstOf(At(ls, "infile")))
OutputOf(x) == x.act.out \o (CASE x.act.copy = "stdin" -> StdinOf(x.lines) [] x.act.copy = "infile" -> InfileOf(x.lines) [] OTHER -> <<>>)
\* declarative matches
Occurs(p, x) == \E i \in 0..(Len(x) - Len(p)) : \A j \in 1..Len(p) : x[i + j] = p[j]
Good(w, x) == CASE w.m = "exact" -> w.text = x
                [] w.m = "prefix" -> Len(w.text) <= Len(x) /\ \A j \in 1..Len(w.text) : x[j] = w.text[j]
                [] w.m = "suffix" -> Len(w.text) <= Len(x) /\ \A j \in 1..Len(w.text) : x[Len(x) - Len(w.text) + j] = w.text[j]
                [] w.m = "infix" -> Occurs(w.text, x)
                [] w.m = "empty" -> x = <<>>
Passes(x) == LET ls == x.lines
                 made == SeqSet(x.act.files)
                 ins == {ls[i].name : i \in At(ls, "infile")}
             IN /\ x.act.exec /\ At(ls, "junk") = {}
                /\ x.act.code = StatusOf(ls)
                /\ Good(WantOf(ls, "stdout"), OutputOf(x))
                /\ Good(WantOf(ls, "stderr"), x.act.err)
                /\ \A i \in At(ls, "outfile") : \E f \in made : f.name = ls[i].name /\ Good(Wanted(ls, i), f.text)
                /\ \A f \in made : f.name \in ins \/ \E i \in At(ls, "outfile") : ls[i].name = f.name
                /\ ~x.act.mkdir
\* a verdict is a matter of the test alone, wherever it stands
Judged == \A i \in 1..Len(verdicts) : verdicts[i] = Passes(tests[i])
All == phase = "done" => Len(verdicts) = Len(tests)
Terminates == <>(phase = "done")
Emit == phase = "done" => PrintT(ToJson([tests |-> tests, verdicts |-> verdicts]))
================================================================================
