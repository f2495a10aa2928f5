------------------------------- MODULE Compare -------------------------------
(***************************************************************************)
(* The built-in orderings, over byte strings (sequences of 0..255).          *)
(* Every ordering is given by a key function into a linearly ordered set, so  *)
(* that it is a total preorder by construction; for the two orderings that    *)
(* the implementation decides digit by digit, that algorithm is specified too *)
(* and TLC checks that it computes the same thing.                            *)
(*   0 = less, 1 = equal, 2 = greater                                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Method, Alphabet, MaxLen, PairLen, Prefixes
VARIABLES a, b
vars == <<a, b>>

IsDigit(c) == c >= 48 /\ c <= 57
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1      \* -1: end of string
Drop(s, n) == SubSeq(s, n + 1, Len(s))
OrdInt(x, y) == IF x < y THEN 0 ELSE IF x = y THEN 1 ELSE 2
RECURSIVE Lex(_, _)
Lex(x, y) == IF x = <<>> /\ y = <<>> THEN 1
             ELSE IF At(x, 1) # At(y, 1) THEN OrdInt(At(x, 1), At(y, 1))
             ELSE Lex(Drop(x, 1), Drop(y, 1))
RECURSIVE TrimBlank(_)
TrimBlank(s) == IF s # <<>> /\ s[1] = 32 THEN TrimBlank(Drop(s, 1)) ELSE s

\* ------------------------- plain, lower, length -------------------------
Lowered(s) == [i \in 1..Len(s) |-> Lower(s[i])]

\* ------------------------------- numeric --------------------------------
\* [blanks][-]digits-and-commas[.digits][junk], arbitrary length; missing parts are zero
RECURSIVE IntPart(_, _)
IntPart(s, acc) == IF s = <<>> THEN acc
                   ELSE IF s[1] = 44 THEN IntPart(Drop(s, 1), acc)
                   ELSE IF IsDigit(s[1]) THEN IntPart(Drop(s, 1), acc * 10 + (s[1] - 48)) ELSE acc
RECURSIVE AfterInt(_)
AfterInt(s) == IF s # <<>> /\ (s[1] = 44 \/ IsDigit(s[1])) THEN AfterInt(Drop(s, 1)) ELSE s
RECURSIVE FracScaled(_, _, _)
FracScaled(s, n, acc) == IF n = 0 THEN acc
                         ELSE IF s # <<>> /\ IsDigit(s[1]) THEN FracScaled(Drop(s, 1), n - 1, acc * 10 + (s[1] - 48))
                         ELSE FracScaled(<<>>, n - 1, acc * 10)
NumKey(s0) ==
  LET s == TrimBlank(s0)
      neg == s # <<>> /\ s[1] = 45
      u == IF neg THEN Drop(s, 1) ELSE s
      rest == AfterInt(u)
      fr == IF rest # <<>> /\ rest[1] = 46 THEN FracScaled(Drop(rest, 1), 5, 0) ELSE 0
      ip == IntPart(u, 0)
  IN  IF neg THEN <<0, 0 - ip, 0 - fr>> ELSE <<1, ip, fr>>     \* a signed zero is just below zero

\* the digit-by-digit algorithm
RECURSIVE SkipZC(_)
SkipZC(s) == IF s # <<>> /\ (s[1] = 48 \/ s[1] = 44) THEN SkipZC(Drop(s, 1)) ELSE s
RECURSIVE SkipC(_)
SkipC(s) == IF s # <<>> /\ s[1] = 44 THEN SkipC(Drop(s, 1)) ELSE s
RECURSIVE CountDigits(_)
CountDigits(s) == IF s = <<>> \/ ~ IsDigit(s[1]) THEN 0 ELSE 1 + CountDigits(SkipC(Drop(s, 1)))
RECURSIVE DigitRun(_)
DigitRun(s) == IF s = <<>> \/ ~ IsDigit(s[1]) THEN <<>> ELSE <<s[1]>> \o DigitRun(Drop(s, 1))
RECURSIVE TrimZeros(_)
TrimZeros(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN TrimZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
FracDigits(s) == IF s # <<>> /\ s[1] = 46 THEN TrimZeros(DigitRun(Drop(s, 1))) ELSE <<>>
RECURSIVE UnsStep(_, _)
UnsStep(x, y) ==
  IF x # <<>> /\ y # <<>> /\ x[1] = y[1] /\ IsDigit(x[1])
  THEN UnsStep(SkipC(Drop(x, 1)), SkipC(Drop(y, 1)))
  ELSE LET nx == CountDigits(x)  ny == CountDigits(y)
       IN  IF nx = 0 /\ ny = 0 THEN Lex(FracDigits(x), FracDigits(y))
           ELSE IF nx # ny THEN OrdInt(nx, ny) ELSE OrdInt(x[1], y[1])
NumAlg(x0, y0) ==
  LET x == TrimBlank(x0)  y == TrimBlank(y0)
      xn == x # <<>> /\ x[1] = 45  yn == y # <<>> /\ y[1] = 45
      xu == IF xn THEN Drop(x, 1) ELSE x  yu == IF yn THEN Drop(y, 1) ELSE y
      U(p, q) == UnsStep(SkipZC(p), SkipZC(q))
  IN  IF xn /\ yn THEN U(yu, xu) ELSE IF xn THEN 0 ELSE IF yn THEN 2 ELSE U(xu, yu)

\* --------------------------------- float --------------------------------
\* [+-]digits[.digits][e[+]digits]; only exactly representable spellings are generated
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
FloatKey(s) ==
  LET neg == s # <<>> /\ s[1] = 45
      u == IF s # <<>> /\ s[1] \in {43, 45} THEN Drop(s, 1) ELSE s
      ip == DigitRun(u)
      r1 == Drop(u, Len(ip))
      fp == IF r1 # <<>> /\ r1[1] = 46 THEN DigitRun(Drop(r1, 1)) ELSE <<>>
      r2 == IF r1 # <<>> /\ r1[1] = 46 THEN Drop(r1, 1 + Len(fp)) ELSE r1
      hasE == Len(r2) >= 2 /\ r2[1] \in {101, 69} /\ (IsDigit(r2[2]) \/ (r2[2] = 43 /\ Len(r2) >= 3 /\ IsDigit(r2[3])))
      ex == IF hasE THEN DigitRun(IF IsDigit(r2[2]) THEN Drop(r2, 1) ELSE Drop(r2, 2)) ELSE <<>>
      m == (IntPart(ip, 0) * 10000 + FracScaled(fp, 4, 0)) * Pow10(IntPart(ex, 0))
  IN  IF neg THEN 0 - m ELSE m
\* spellings with a negative exponent or a huge one are left to other checks, and so are unit
\* suffixes: an "e" that is not followed by an exponent means exa
NumRest(s) == LET u == IF s # <<>> /\ s[1] \in {43, 45} THEN Drop(s, 1) ELSE s
                  r1 == Drop(u, Len(DigitRun(u)))
              IN  IF r1 # <<>> /\ r1[1] = 46 THEN Drop(r1, 1 + Len(DigitRun(Drop(r1, 1)))) ELSE r1
RestE(r) == IF r # <<>> /\ r[1] \in {101, 69}
            THEN LET t == Drop(r, 1)  v == IF t # <<>> /\ t[1] = 43 THEN Drop(t, 1) ELSE t
                 IN  Len(DigitRun(v)) > 0 /\ Drop(v, Len(DigitRun(v))) \in {<<>>} \cup {w \in {Drop(v, Len(DigitRun(v)))} : w # <<>> /\ w[1] \notin {101, 69}}
            ELSE TRUE
FloatOk(s) == RestE(NumRest(s)) /\ \A i \in 1..Len(s) : s[i] \in {101, 69} =>
                 /\ (i < Len(s) => s[i + 1] # 45)
                 /\ ~ \E j \in i + 1..Len(s) - 1 : IsDigit(s[j]) /\ s[j] # 48 /\ IsDigit(s[j + 1])
                 /\ ~ \E j \in i + 1..Len(s) : s[j] \in {52, 53, 54, 55, 56, 57}

\* ------------------------- ip / section numbers -------------------------
\* dotted non-negative integers without leading zeros; ends at the first other byte
RECURSIVE IpParts(_)
IpParts(s) == LET d == DigitRun(s)
                  r == Drop(s, Len(d))
                  v == IF d = <<>> THEN 0 ELSE 1 + IntPart(d, 0)
              IN  IF r # <<>> /\ r[1] = 46 THEN <<v>> \o IpParts(Drop(r, 1)) ELSE <<v>>
IpKey(s) == IpParts(TrimBlank(s))
RECURSIVE IpAlg(_, _)
IpAlg(x, y) ==
  LET dx == DigitRun(x)  dy == DigitRun(y)
      px == At(x, Len(dx) + 1) = 46  py == At(y, Len(dy) + 1) = 46
  IN  IF Len(dx) # Len(dy) THEN OrdInt(Len(dx), Len(dy))
      ELSE IF dx # dy THEN Lex(dx, dy)
      ELSE IF px /\ py THEN IpAlg(Drop(x, Len(dx) + 1), Drop(y, Len(dy) + 1))
      ELSE IF px THEN 2 ELSE IF py THEN 0 ELSE 1
\* no digit run other than "0" itself starts with 0
IpOk(s) == \A i \in 1..Len(s) - 1 : (s[i] = 48 /\ IsDigit(s[i + 1])) => (i > 1 /\ IsDigit(s[i - 1]))

\* ------------------------------------------------------------------------
Ok(s) == CASE Method = "float" -> FloatOk(s) [] Method = "ip" -> IpOk(s) [] OTHER -> TRUE
Key(s) == CASE Method = "plain" -> s
            [] Method = "lower" -> Lowered(s)
            [] Method = "length" -> <<Len(s)>>
            [] Method = "numeric" -> NumKey(s)
            [] Method = "float" -> <<FloatKey(s)>>
            [] Method = "ip" -> IpKey(s)
            [] Method = "equal" -> <<0>>
            [] Method = "random" -> s     \* up to a permutation of the keys, fixed for one run
Cmp(x, y) == Lex(Key(x), Key(y))
Alg(x, y) == CASE Method = "numeric" -> NumAlg(x, y)
               [] Method = "ip" -> IpAlg(TrimBlank(x), TrimBlank(y))
               [] OTHER -> Cmp(x, y)

Strs(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Universe(n) == {s \in {p \o t : p \in Prefixes, t \in Strs(n)} : Ok(s)}
\* every string is emitted with its key; pairs of the shorter ones exercise the algorithm
Init == \/ a \in Universe(MaxLen) /\ b = <<-5>>
        \/ a \in Universe(PairLen) /\ b \in Universe(PairLen)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Solo == b = <<-5>>
Emit == Solo => PrintT(ToJson([s |-> a, key |-> Key(a)]))
AlgorithmIsTheOrdering == ~Solo => Alg(a, b) = Cmp(a, b)
Antisymmetric == ~Solo => Alg(b, a) = 2 - Alg(a, b)
=============================================================================
