-------------------------------- MODULE Match --------------------------------
(***************************************************************************)
(* What a pattern matches (src/matcher.rs).  A spec is                        *)
(*   [method, nocase, trim, null, neg, multi, pats]                           *)
(* and its meaning the set of texts it accepts.  Texts are sequences of       *)
(* units: bytes, or characters with the utf8 modifier.  The machine builds    *)
(* the answer the way the code does: trim, then the empty text, then each     *)
(* pattern of a multi-pattern with early exit, then negation.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT Unit
VARIABLES spec, ts, n, k, lang, phase
vars == <<spec, ts, n, k, lang, phase>>
Given == ndJsonDeserialize("given.ndjson")
TextSets == ndJsonDeserialize("texts.ndjson")

\* ------------------------------ characters ------------------------------
Lower(c) == IF c \in 65..90 THEN c + 32
            ELSE IF Unit = "byte" THEN c
            ELSE CASE c = 209 -> 241      \* N with tilde
                   [] c = 201 -> 233      \* E acute
                   [] c = 931 -> 963      \* sigma
                   [] c = 8490 -> 107     \* Kelvin sign
                   [] OTHER -> c
\* one character may fold to two (capital I with dot)
RECURSIVE Fold(_)
Fold(s) == IF s = <<>> THEN <<>>
           ELSE (IF Unit = "char" /\ s[1] = 304 THEN <<105, 775>> ELSE <<Lower(s[1])>>) \o Fold(Tail(s))
Blank(c) == IF Unit = "byte" THEN c <= 32 ELSE c \in {9, 10, 11, 12, 13, 32, 133, 160, 8195}
Trim(s) == IF \A i \in 1..Len(s) : Blank(s[i]) THEN <<>>
           ELSE LET I == {i \in 1..Len(s) : ~Blank(s[i])}
                    lo == CHOOSE i \in I : \A j \in I : i <= j
                    hi == CHOOSE i \in I : \A j \in I : i >= j
                IN SubSeq(s, lo, hi)
Digit(c) == c \in 48..57
Digits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Digit(s[i])
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)

\* ------------------------------- methods --------------------------------
IsPrefix(p, t) == Len(p) <= Len(t) /\ Upto(t, Len(p)) = p
IsSuffix(p, t) == Len(p) <= Len(t) /\ From(t, Len(t) - Len(p) + 1) = p
IsInfix(p, t) == \E i \in 0..Len(t) : IsPrefix(p, From(t, i + 1))
RECURSIVE Globs(_, _)
Globs(p, t) == IF p = <<>> THEN t = <<>>
               ELSE IF p[1] = 42 THEN \E i \in 0..Len(t) : Globs(Tail(p), From(t, i + 1))
               ELSE t # <<>> /\ (p[1] = 63 \/ p[1] = t[1]) /\ Globs(Tail(p), Tail(t))
\* a regex is a sequence of alternatives [bol, eol, atoms], an atom [c, rep]; c = 46 is any character but newline
Fits(a, c) == (a.c = 46 /\ c # 10) \/ a.c = c
StepOne(a, t, J) == {j + 1 : j \in {j \in J : j < Len(t) /\ Fits(a, t[j + 1])}}
RECURSIVE Closure(_, _, _)
Closure(a, t, J) == LET K == J \cup StepOne(a, t, J) IN IF K = J THEN J ELSE Closure(a, t, K)
StepAtom(a, t, J) == CASE a.rep = "one" -> StepOne(a, t, J)
                       [] a.rep = "opt" -> J \cup StepOne(a, t, J)
                       [] a.rep = "star" -> Closure(a, t, J)
                       [] a.rep = "plus" -> StepOne(a, t, Closure(a, t, J))
RECURSIVE Ends(_, _, _)
Ends(as, t, J) == IF as = <<>> THEN J ELSE Ends(Tail(as), t, StepAtom(as[1], t, J))
Alternative(r, t) == LET E == Ends(r.atoms, t, IF r.bol THEN {0} ELSE 0..Len(t)) IN IF r.eol THEN Len(t) \in E ELSE E # {}
FoldRe(r) == [r EXCEPT !.atoms = [i \in 1..Len(r.atoms) |-> [r.atoms[i] EXCEPT !.c = Lower(@)]]]
\* numbers
Unsigned(t) == IF t # <<>> /\ t[1] = 45 THEN Tail(t) ELSE t
IsInteger(t) == Digits(Unsigned(t))
IsNumber(t) == LET u == Unsigned(t) IN Digits(u) \/ \E i \in 2..Len(u) : u[i] = 46 /\ Digits(Upto(u, i - 1)) /\ Digits(From(u, i + 1))
Mantissa(m) == Digits(m) \/ \E i \in 1..Len(m) : m[i] = 46 /\ Digits(From(m, i + 1)) /\ (i = 1 \/ Digits(Upto(m, i - 1)))
Exponent(e) == Len(e) > 1 /\ e[1] \in {69, 101} /\ (Digits(Tail(e)) \/ (e[2] \in {43, 45} /\ Digits(From(e, 3))))
IsFloat(t) == LET u == Unsigned(t) IN Mantissa(u) \/ \E i \in 1..Len(u) : Mantissa(Upto(u, i)) /\ Exponent(From(u, i + 1))
RECURSIVE Value(_)
Value(d) == IF d = <<>> THEN 0 ELSE 10 * Value(Upto(d, Len(d) - 1)) + d[Len(d)] - 48
Octet(d) == Digits(d) /\ Len(d) <= 3 /\ Value(d) <= 255
Dots(t) == {i \in 1..Len(t) : t[i] = 46}
IsIp(t) == /\ Cardinality(Dots(t)) = 3
           /\ LET D == Dots(t)
                  a == CHOOSE i \in D : \A j \in D : i <= j
                  z == CHOOSE i \in D : \A j \in D : i >= j
                  m == CHOOSE i \in D : i # a /\ i # z
              IN Octet(Upto(t, a - 1)) /\ Octet(SubSeq(t, a + 1, m - 1)) /\ Octet(SubSeq(t, m + 1, z - 1)) /\ Octet(From(t, z + 1))
\* pattern of "length": <<min>> or <<min, max>>; of "file-exact": the lines of the file; of "regex": alternatives
F(s, x) == IF s.nocase THEN Fold(x) ELSE x
Base(s, p, t) ==
  CASE s.method = "prefix" -> IsPrefix(F(s, p), F(s, t))
    [] s.method = "suffix" -> IsSuffix(F(s, p), F(s, t))
    [] s.method = "infix" -> IsInfix(F(s, p), F(s, t))
    [] s.method = "exact" -> F(s, p) = F(s, t)
    [] s.method = "glob" -> Globs(F(s, p), F(s, t))
    [] s.method = "regex" -> \E i \in 1..Len(p) : Alternative(IF s.nocase THEN FoldRe(p[i]) ELSE p[i], F(s, t))
    [] s.method = "file-exact" -> \E i \in 1..Len(p) : p[i] # <<>> /\ F(s, p[i]) = F(s, t)
    [] s.method = "length" -> Len(t) >= p[1] /\ (Len(p) = 2 => Len(t) <= p[2])
    [] s.method = "empty" -> t = <<>>
    [] s.method = "yes" -> TRUE
    [] s.method = "blank" -> FALSE
    [] s.method = "comment" -> IsPrefix(p, t)
    [] s.method = "hash" -> IsPrefix(<<35>>, t)
    [] s.method = "slash" -> IsPrefix(<<47, 47>>, t)
    [] s.method = "integer" -> IsInteger(t)
    [] s.method = "number" -> IsNumber(t)
    [] s.method = "float" -> IsFloat(t)
    [] s.method = "ip" -> IsIp(t)
\* these methods always trim and accept what is blank
Lenient(s) == s.method \in {"blank", "comment", "hash", "slash"}
Trimmed(s, t) == IF s.trim \/ Lenient(s) THEN Trim(t) ELSE t
\* one pattern: is the empty text accepted, or else the method decides
One(s, p, t) == LET x == Trimmed(s, t) IN ((s.null \/ Lenient(s)) /\ x = <<>>) \/ Base(s, p, x)

\* ------------------------------- machine --------------------------------
T == TextSets[ts]
Begin(s, x) == spec = s /\ ts = x /\ n = 1 /\ k = 1 /\ lang = {} /\ phase = "text"
Init == \E g \in 1..Len(Given) : Begin(Given[g].spec, Given[g].ts)
Accept(b) == /\ lang' = IF b # spec.neg THEN lang \cup {n} ELSE lang
             /\ n' = n + 1 /\ k' = 1
Text == /\ phase = "text"
        /\ IF n > Len(T) THEN phase' = "done" /\ UNCHANGED <<n, k, lang>>
           ELSE /\ UNCHANGED phase
                /\ IF k > Len(spec.pats) THEN Accept(spec.multi = "and")
                   ELSE LET r == One(spec, spec.pats[k], T[n]) IN
                     CASE spec.multi = "one" -> Accept(r)
                       [] spec.multi = "or" /\ r -> Accept(TRUE)
                       [] spec.multi = "and" /\ ~r -> Accept(FALSE)
                       [] OTHER -> k' = k + 1 /\ UNCHANGED <<n, lang>>
        /\ UNCHANGED <<spec, ts>>
Next == Text
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------- meaning --------------------------------
Accepts(s, t) == s.neg # (IF s.multi = "and" THEN \A i \in 1..Len(s.pats) : One(s, s.pats[i], t)
                                             ELSE \E i \in 1..Len(s.pats) : One(s, s.pats[i], t))
Lang(s) == {i \in 1..Len(T) : Accepts(s, T[i])}
Right == phase = "done" => lang = Lang(spec)
Literal(p) == \A i \in 1..Len(p) : p[i] \notin {42, 63}
As(m, p) == [spec EXCEPT !.method = m, !.pats = <<p>>]
\* laws that tie the methods together
Laws == phase = "done" =>
  /\ lang \cup Lang([spec EXCEPT !.neg = ~@]) = 1..Len(T)
  /\ lang \cap Lang([spec EXCEPT !.neg = ~@]) = {}
  /\ (~spec.neg => Lang([spec EXCEPT !.nocase = FALSE]) \subseteq Lang([spec EXCEPT !.nocase = TRUE]))
  /\ (~spec.neg => Lang([spec EXCEPT !.null = FALSE]) \subseteq Lang([spec EXCEPT !.null = TRUE]))
  /\ spec.multi = "one" => LET p == spec.pats[1] IN
       /\ (spec.method = "exact" /\ Literal(p) => lang = Lang(As("glob", p)))
       /\ (spec.method = "prefix" /\ Literal(p) => lang = Lang(As("glob", p \o <<42>>)))
       /\ (spec.method = "suffix" /\ Literal(p) => lang = Lang(As("glob", <<42>> \o p)))
       /\ (spec.method = "infix" /\ Literal(p) => lang = Lang(As("glob", <<42>> \o p \o <<42>>)))
       /\ (spec.method = "integer" /\ ~spec.neg => lang \subseteq Lang(As("number", p)))
       /\ (spec.method = "number" /\ ~spec.neg => lang \subseteq Lang(As("float", p)))
       /\ (spec.method = "hash" => lang = Lang(As("comment", <<35>>)))
       /\ (spec.method = "slash" => lang = Lang(As("comment", <<47, 47>>)))
       /\ (spec.method = "blank" => lang = Lang([As("empty", p) EXCEPT !.trim = TRUE]))
Terminates == <>(phase = "done")
Emit == phase = "done" => PrintT(ToJson([spec |-> spec, ts |-> ts, lang |-> lang]))
=============================================================================
