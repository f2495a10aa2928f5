-------------------------------- MODULE Args --------------------------------
(***************************************************************************)
(* The command line of a tool (src/bin/cdx/args.rs).  A command is a          *)
(* sequence of items [o, v]: o = 0 is the file v, 1 and 2 are flags, 3 an     *)
(* option with a value that may be repeated, 4 one of which the last counts.  *)
(* It is first spelled, in any of the ways there are, then parsed.  Tokens:   *)
(*   word v            a word by itself                                       *)
(*   dd                --, after which everything is a file                   *)
(*   long o, eq o v    --name and --name=value                                *)
(*   short os v        -abc or -abcVALUE (v = 0: no value)                    *)
(* bad is what is wrong with the command: an unknown option, an option        *)
(* without its value, a flag with one, a value that makes no sense (9), or    *)
(* nothing.  A tool takes up to cap files; more are refused, too.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxItems, Vals, Bads
CONSTANT Caps
VARIABLES cmd, bad, i, toks, dd, p, wait, opts, files, rest, cap, phase
vars == <<cmd, bad, i, toks, dd, p, wait, opts, files, rest, cap, phase>>
Given == ndJsonDeserialize("given.ndjson")
Items == {[o |-> o, v |-> v] : o \in {0, 3, 4}, v \in Vals} \cup {[o |-> o, v |-> 0] : o \in {1, 2}}
Start(s, b) == /\ cmd = s /\ bad = b /\ i = 1 /\ toks = <<>> /\ dd = FALSE /\ p = 1 /\ wait = 0
               /\ opts = <<>> /\ files = <<>> /\ rest = FALSE /\ cap = 0 /\ phase = "spell"
Init == \/ \E n \in 0..MaxItems : \E s \in [1..n -> Items] : Start(s, "no")
        \/ \E n \in 0..MaxItems - 1 : \E s \in [1..n -> Items], b \in Bads : Start(s, b)
        \/ \E n \in 1..Len(Given) : Start(Given[n].cmd, Given[n].bad)

Word(v) == [k |-> "word", o |-> 0, os |-> <<>>, v |-> v]
DD == [k |-> "dd", o |-> 0, os |-> <<>>, v |-> 0]
Long(o) == [k |-> "long", o |-> o, os |-> <<>>, v |-> 0]
Eq(o, v) == [k |-> "eq", o |-> o, os |-> <<>>, v |-> v]
Short(os, v) == [k |-> "short", o |-> 0, os |-> os, v |-> v]
Valued(o) == o \in {3, 4}
Cur == cmd[i]
IsFile == Cur.o = 0
\* a cluster of flags that can be added to
Open == toks # <<>> /\ ~dd /\ toks[Len(toks)].k = "short" /\ toks[Len(toks)].v = 0
        /\ ~Valued(toks[Len(toks)].os[Len(toks[Len(toks)].os)])
Join(o, v) == [toks EXCEPT ![Len(toks)] = Short(Append(@.os, o), v)]
Ways == IF IsFile THEN {toks \o <<Word(Cur.v)>>}
        ELSE IF Valued(Cur.o) THEN {toks \o <<Long(Cur.o), Word(Cur.v)>>, toks \o <<Eq(Cur.o, Cur.v)>>,
                                    toks \o <<Short(<<Cur.o>>, 0), Word(Cur.v)>>, toks \o <<Short(<<Cur.o>>, Cur.v)>>}
                                   \cup (IF Open THEN {Join(Cur.o, Cur.v), Join(Cur.o, 0) \o <<Word(Cur.v)>>} ELSE {})
        ELSE {toks \o <<Long(Cur.o)>>, toks \o <<Short(<<Cur.o>>, 0)>>} \cup (IF Open THEN {Join(Cur.o, 0)} ELSE {})
Same == UNCHANGED <<cmd, bad, p, wait, opts, files, rest, cap>>
Spell == /\ phase = "spell" /\ i <= Len(cmd) /\ (dd => IsFile)
         /\ toks' \in Ways /\ i' = i + 1 /\ UNCHANGED <<dd, phase>> /\ Same
Dash == /\ phase = "spell" /\ ~dd /\ bad = "no" /\ \A j \in i..Len(cmd) : cmd[j].o = 0
        /\ toks' = Append(toks, DD) /\ dd' = TRUE /\ UNCHANGED <<i, phase>> /\ Same
Spoil == CASE bad = "unknown" -> {<<Long(9)>>, <<Short(<<9>>, 0)>>, <<Short(<<1, 9>>, 0)>>, <<Eq(9, 1)>>}
           [] bad = "novalue" -> {<<Long(3)>>, <<Short(<<4>>, 0)>>, <<Short(<<2, 3>>, 0)>>}
           [] bad = "flagvalue" -> {<<Eq(1, 1)>>}
           [] bad = "value" -> {<<Eq(3, 9)>>, <<Long(4), Word(9)>>, <<Short(<<3>>, 9)>>, <<Short(<<1, 4>>, 9)>>}
           [] OTHER -> {<<>>}
Spelled == /\ phase = "spell" /\ i > Len(cmd)
           /\ \E x \in Spoil : toks' = toks \o x
           /\ phase' = "parse" /\ UNCHANGED <<i, dd>> /\ Same

\* ------------------------------ the parser --------------------------------
Tok == toks[p]
Opt(o, v) == [o |-> o, v |-> v]
Known(o) == o \in 1..4
Refuse == phase' = "refused" /\ UNCHANGED <<wait, opts, files, rest, p>>
Take == /\ phase = "parse" /\ p <= Len(toks)
        /\ UNCHANGED <<cmd, bad, i, toks, dd, cap>>
        /\ IF wait # 0 THEN
             IF Tok.k = "word" THEN opts' = Append(opts, Opt(wait, Tok.v)) /\ wait' = 0 /\ p' = p + 1 /\ UNCHANGED <<files, rest, phase>>
             ELSE Refuse
           ELSE CASE Tok.k = "word" -> files' = Append(files, Tok.v) /\ p' = p + 1 /\ UNCHANGED <<wait, opts, rest, phase>>
                  [] Tok.k = "dd" -> rest' = TRUE /\ p' = p + 1 /\ UNCHANGED <<wait, opts, files, phase>>
                  [] Tok.k = "long" -> IF ~Known(Tok.o) THEN Refuse
                                       ELSE /\ IF Valued(Tok.o) THEN wait' = Tok.o /\ UNCHANGED opts
                                               ELSE opts' = Append(opts, Opt(Tok.o, 0)) /\ UNCHANGED wait
                                            /\ p' = p + 1 /\ UNCHANGED <<files, rest, phase>>
                  [] Tok.k = "eq" -> IF ~Known(Tok.o) \/ ~Valued(Tok.o) THEN Refuse
                                     ELSE opts' = Append(opts, Opt(Tok.o, Tok.v)) /\ p' = p + 1 /\ UNCHANGED <<wait, files, rest, phase>>
                  [] Tok.k = "short" ->
                       LET n == Len(Tok.os)
                           front == [j \in 1..n - 1 |-> Opt(Tok.os[j], 0)]
                           z == Tok.os[n]
                       IN IF \E j \in 1..n : ~Known(Tok.os[j]) THEN Refuse
                          ELSE /\ IF ~Valued(z) THEN opts' = opts \o front \o <<Opt(z, 0)>> /\ UNCHANGED wait
                                  ELSE IF Tok.v = 0 THEN opts' = opts \o front /\ wait' = z
                                  ELSE opts' = opts \o front \o <<Opt(z, Tok.v)>> /\ UNCHANGED wait
                               /\ p' = p + 1 /\ UNCHANGED <<files, rest, phase>>
End == /\ phase = "parse" /\ p > Len(toks)
       /\ cap' \in Caps
       /\ phase' = (IF wait # 0 \/ Len(files) > cap' \/ \E j \in 1..Len(opts) : opts[j].v = 9 THEN "refused" ELSE "done")
       /\ UNCHANGED <<cmd, bad, i, toks, dd, p, wait, opts, files, rest>>
Next == Spell \/ Dash \/ Spelled \/ Take \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------- meaning --------------------------------
Options(s) == SelectSeq(s, LAMBDA x : x.o # 0)
Files(s) == LET f == SelectSeq(s, LAMBDA x : x.o = 0) IN [j \in 1..Len(f) |-> f[j].v]
\* what counts: of option 4 the last, of a flag that it is there
Counts(s) == LET last(j) == \A k \in j + 1..Len(s) : s[k].o # s[j].o
                 keep == [j \in 1..Len(s) |-> s[j].o = 3 \/ last(j)]
             IN [j \in 1..Len(s) |-> [item |-> s[j], keep |-> keep[j]]]
Effective(s) == LET c == SelectSeq(Counts(s), LAMBDA x : x.keep) IN [j \in 1..Len(c) |-> c[j].item]
\* however it is spelled, the command is understood
Understood == phase = "done" => opts = Options(cmd) /\ files = Files(cmd)
RefusedRight == phase \in {"done", "refused"} => (phase = "refused" <=> bad # "no" \/ Len(Files(cmd)) > cap)
AfterDash == rest => \A j \in 1..Len(toks) : toks[j].k = "dd" => \A k \in j + 1..Len(toks) : toks[k].k = "word"
Terminates == <>(phase \in {"done", "refused"})
Emit == phase \in {"done", "refused"} =>
          PrintT(ToJson([cmd |-> cmd, toks |-> toks, ok |-> phase = "done", bad |-> bad, cap |-> cap, eff |-> Effective(Options(cmd)), files |-> Files(cmd)]))
=============================================================================
