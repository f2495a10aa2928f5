------------------------------- MODULE Numbers -------------------------------
(***************************************************************************)
(* How a text is read as a number, by one left to right scan, and how a       *)
(* number is written with a power suffix.                                     *)
(*   kind "u"  [+]digits[suffix]                                              *)
(*   kind "i"  [+-]digits[suffix]                                             *)
(*   kind "f"  [+-][digits][.[digits]][e[+-]digits][suffix]                   *)
(*   kind "p"  the integer n is written in base 1000 or 1024                  *)
(* The scan stops at the first byte that cannot continue the number; what it  *)
(* has read is the longest prefix of that form, and the rest is junk.         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Alphabet, MaxLen, MinValue, MaxValue
VARIABLES text, kind, pos, phase, v, n
vars == <<text, kind, pos, phase, v, n>>

Given == ndJsonDeserialize("given.ndjson")
IsDigit(c) == c >= 48 /\ c <= 57
IsSign(c) == c \in {43, 45}
IsE(c) == c \in {69, 101}
Upper == <<75, 77, 71, 84, 80, 69, 90, 89>>        \* K M G T P E Z Y : powers of 1024
Lower == <<107, 109, 103, 116, 112, 101, 122, 121>> \* k m g t p e z y : powers of 1000
SuffixSet == {Upper[i] : i \in 1..8} \cup {Lower[i] : i \in 1..8}
C(i) == IF i <= Len(text) THEN text[i] ELSE -1
Zero == [neg |-> FALSE, int |-> <<>>, frac |-> <<>>, eneg |-> FALSE, exp |-> <<>>, suf |-> 0]
Strs == UNION {[1..k -> Alphabet] : k \in 0..MaxLen}

Init == \/ /\ kind \in {"u", "i", "f"} /\ text \in Strs
           /\ pos = 0 /\ phase = "sign" /\ v = Zero /\ n = 0
        \/ \E i \in 1..Len(Given) :
              /\ kind = Given[i].kind /\ text = Given[i].text
              /\ pos = 0
              /\ phase = (IF Given[i].kind = "p" THEN "scale" ELSE "sign")
              /\ v = (IF Given[i].kind = "p" THEN [base |-> Given[i].base, cur |-> 1, e |-> 0] ELSE Zero)
              /\ n = Given[i].n
        \/ /\ kind = "p" /\ text = <<>> /\ pos = 0 /\ phase = "scale" /\ n \in MinValue..MaxValue
           /\ \E b \in {1000, 1024} : v = [base |-> b, cur |-> 1, e |-> 0]

\* ------------------------------- the scan --------------------------------
Take(f, p) == v' = f /\ phase' = p /\ pos' = pos + 1 /\ UNCHANGED <<text, kind, n>>
Skip(p) == phase' = p /\ UNCHANGED <<text, kind, n, v, pos>>
Sign == /\ phase = "sign"
        /\ IF C(pos + 1) = 43 THEN Take(v, "first")
           ELSE IF C(pos + 1) = 45 /\ kind # "u" THEN Take([v EXCEPT !.neg = TRUE], "first")
           ELSE Skip("first")
First == /\ phase = "first"
         /\ IF kind # "f" /\ ~ IsDigit(C(pos + 1))
            THEN pos' = 0 /\ v' = Zero /\ phase' = "done" /\ UNCHANGED <<text, kind, n>>
            ELSE Skip("int")
Whole == /\ phase = "int"
         /\ IF IsDigit(C(pos + 1)) THEN Take([v EXCEPT !.int = Append(@, C(pos + 1) - 48)], "int")
            ELSE IF kind = "f" /\ C(pos + 1) = 46 THEN Take(v, "frac")
            ELSE Skip(IF kind = "f" THEN "e" ELSE "suffix")
Frac == /\ phase = "frac"
        /\ IF IsDigit(C(pos + 1)) THEN Take([v EXCEPT !.frac = Append(@, C(pos + 1) - 48)], "frac") ELSE Skip("e")
Expo == /\ phase = "e"
        /\ IF IsE(C(pos + 1)) /\ (IsDigit(C(pos + 2)) \/ (IsSign(C(pos + 2)) /\ IsDigit(C(pos + 3))))
           THEN Take(v, "esign") ELSE Skip("suffix")
ExpSign == /\ phase = "esign"
           /\ IF IsSign(C(pos + 1)) THEN Take([v EXCEPT !.eneg = (C(pos + 1) = 45)], "exp") ELSE Skip("exp")
ExpDigits == /\ phase = "exp"
             /\ IF IsDigit(C(pos + 1)) THEN Take([v EXCEPT !.exp = Append(@, C(pos + 1) - 48)], "exp") ELSE Skip("suffix")
Suffix == /\ phase = "suffix"
          /\ IF C(pos + 1) \in SuffixSet THEN Take([v EXCEPT !.suf = C(pos + 1)], "done") ELSE Skip("done")
\* ------------------------ writing with a suffix ---------------------------
\* v.cur is base^e; stop at the first power that leaves fewer than 999 of them
Scale == /\ phase = "scale"
         /\ IF n < 1000 \/ n < 999 * v.cur THEN Skip("done")
            ELSE v' = [v EXCEPT !.cur = @ * v.base, !.e = @ + 1] /\ UNCHANGED <<text, kind, n, pos, phase>>
Next == Sign \/ First \/ Whole \/ Frac \/ Expo \/ ExpSign \/ ExpDigits \/ Suffix \/ Scale
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(phase = "done")

\* ------------------------------- the meaning ------------------------------
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])
SignOk(s) == s = <<>> \/ (Len(s) = 1 /\ IsSign(s[1]) /\ (kind = "u" => s[1] = 43))
PointOk(s) == s = <<>> \/ (kind = "f" /\ s[1] = 46 /\ AllDigits(SubSeq(s, 2, Len(s))))
ExpOk(s) == \/ s = <<>>
            \/ kind = "f" /\ Len(s) >= 2 /\ IsE(s[1]) /\ AllDigits(SubSeq(s, 2, Len(s)))
            \/ kind = "f" /\ Len(s) >= 3 /\ IsE(s[1]) /\ IsSign(s[2]) /\ AllDigits(SubSeq(s, 3, Len(s)))
SufOk(s) == s = <<>> \/ (Len(s) = 1 /\ s[1] \in SuffixSet)
Digits(s) == [i \in 1..Len(s) |-> s[i] - 48]
Forms(p) ==      \* every way of reading p as a number
  LET L == Len(p) IN
  {m \in UNION {UNION {UNION {UNION {{<<a, b, c, d>>} :
       d \in {x \in c..L : x >= L - 1 /\ ExpOk(SubSeq(p, c + 1, x)) /\ SufOk(SubSeq(p, x + 1, L))}} :
       c \in {x \in b..L : PointOk(SubSeq(p, b + 1, x))}} :
       b \in {x \in a..L : AllDigits(SubSeq(p, a + 1, x)) /\ (kind # "f" => x > a)}} :
       a \in {x \in 0..1 : x <= L /\ SignOk(SubSeq(p, 1, x))}} : TRUE}
ValueOf(p, m) ==
  LET e == SubSeq(p, m[3] + 1, m[4])
      esign == Len(e) >= 2 /\ IsSign(e[2])
  IN  [neg |-> m[1] = 1 /\ p[1] = 45, int |-> Digits(SubSeq(p, m[1] + 1, m[2])),
       frac |-> IF m[3] > m[2] THEN Digits(SubSeq(p, m[2] + 2, m[3])) ELSE <<>>,
       eneg |-> esign /\ e[2] = 45,
       exp |-> Digits(SubSeq(e, IF esign THEN 3 ELSE 2, Len(e))),
       suf |-> IF m[4] < Len(p) THEN p[m[4] + 1] ELSE 0]
Longest == LET ok == {k \in 0..Len(text) : Forms(SubSeq(text, 1, k)) # {}}
           IN  IF ok = {} THEN 0 ELSE CHOOSE k \in ok : \A j \in ok : j <= k
Done == phase = "done"
Reading == kind # "p"
ScanRight == (Done /\ Reading) =>
   /\ pos = Longest
   /\ LET fs == Forms(SubSeq(text, 1, pos)) IN
      IF fs = {} THEN v = Zero ELSE Cardinality(fs) = 1 /\ \A m \in fs : v = ValueOf(SubSeq(text, 1, pos), m)
Ordered == Reading => pos <= Len(text)
\* which readings count, for a caller that takes anything, a number and then junk, or a number alone
Taken == [anything |-> TRUE, trailing |-> pos > 0, alone |-> pos > 0 /\ pos = Len(text)]
TakenRight == (Done /\ Reading) =>
   /\ Taken.alone <=> text # <<>> /\ Forms(text) # {} /\ pos = Len(text)
   /\ Taken.alone => Taken.trailing
\* written with a suffix, a number keeps its size to within a tenth, in at most three digits
Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* in tenths of v.cur
Shown == IF 10 * n < 11 * v.cur THEN 10
         ELSE IF n < 10 * v.cur THEN (10 * n + (v.cur \div 2)) \div v.cur
         ELSE 10 * ((n + (v.cur \div 2)) \div v.cur)
PowerRight == (Done /\ ~Reading) =>
   \/ n < 1000 /\ v.e = 0
   \/ /\ n >= 1000 /\ v.e >= 1
      /\ Shown < 10000                          \* never more than three digits
      /\ Abs(10 * n - Shown * v.cur) <= n
      /\ n >= 999 * (v.cur \div v.base)         \* and no smaller power would do
Emit == Done => PrintT(ToJson([kind |-> kind, text |-> text, used |-> pos, v |-> v, n |-> n, taken |-> IF Reading THEN Taken ELSE [anything |-> TRUE]]))
=============================================================================
