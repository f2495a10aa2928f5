-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Arithmetic expressions (src/tok2.rs, src/shunting_yard.rs, src/expr.rs)  *)
(* as used by calc, cut -e, cgrep expr, sort expr and the expr aggregator.  *)
(* The machine reads the tokens one by one with an operator stack and makes *)
(* a postfix program, which a stack machine evaluates.  The meaning is the  *)
(* grammar                                                                  *)
(*   Cmp  = Add | Cmp (< > <= >= == !=) Add        Add = Mul | Add (+ -) Mul *)
(*   Mul  = Un  | Mul (/ % times) Un               Un  = Pow | (+ -) Un      *)
(*   Pow  = Post | Post ^ Un                       Post = Prim | Post !      *)
(*   Prim = number | column | ( Cmp ) | f( Cmp , ... )                       *)
(* with the values of arithmetic.  Values are fractions with a power of two *)
(* below, which binary floating point represents exactly; anything else     *)
(* has no specified value here (ok = FALSE).                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen
VARIABLES toks, tree, envs, pos, q, st, want, phase
vars == <<toks, tree, envs, pos, q, st, want, phase>>
Given == ndJsonDeserialize("given.ndjson")

T(k, s, n, d) == [k |-> k, s |-> s, n |-> n, d |-> d]
Op(s) == T("op", s, 0, 1)
Open == T("(", "", 0, 1)
Close == T(")", "", 0, 1)
Comma == T(",", "", 0, 1)
Fn(s) == T("fn", s, 0, 1)
NoTree == [t |-> "none"]

\* ------------------------------ arguments -------------------------------
Two == {"atan2", "copysign", "fmin", "fdim", "fmax", "fmod", "hypot", "jn", "ldexp", "nextafter", "remainder", "scalbn", "pow", "yn"}
Three == {"fma", "if"}
Many == {"min", "max", "avg"}
One == {"acos", "acosh", "asin", "asinh", "atan", "atanh", "cbrt", "ceil", "cos", "cosh", "erf", "exp", "exp2", "exp10", "expm1", "fabs",
        "floor", "j0", "j1", "lgamma", "log", "log1p", "log2", "log10", "round", "sin", "sinh", "sqrt", "tan", "tanh", "tgamma", "trunc",
        "y0", "y1", "abs"}
Arity(f, n) == \/ f \in One /\ n = 1
               \/ f \in Two /\ n = 2
               \/ f \in Three /\ n = 3
               \/ f \in Many /\ n >= 1

\* ------------------------------- values ---------------------------------
No == [ok |-> FALSE, n |-> 0, d |-> 1]
Abs(x) == IF x < 0 THEN -x ELSE x
Pow2 == {1, 2, 4, 8, 16, 32}
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Fix(n, d) == IF d = 0 THEN No
             ELSE LET g == Gcd(Abs(n), Abs(d))
                      m == IF d < 0 THEN -n ELSE n
                      e == Abs(d)
                  IN IF e \div g \in Pow2 /\ Abs(n) \div g <= 30000 THEN [ok |-> TRUE, n |-> IF m < 0 THEN -(Abs(m) \div g) ELSE m \div g, d |-> e \div g] ELSE No
Whole(n) == Fix(n, 1)
B(x) == Whole(IF x THEN 1 ELSE 0)
Add(a, b) == Fix(a.n * b.d + b.n * a.d, a.d * b.d)
Neg(a) == Fix(-a.n, a.d)
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == Fix(a.n * b.n, a.d * b.d)
Div(a, b) == IF b.n = 0 THEN No ELSE Fix(a.n * b.d, a.d * b.n)
Less(a, b) == a.n * b.d < b.n * a.d
Trunc(a) == IF a.n < 0 THEN Whole(-(Abs(a.n) \div a.d)) ELSE Whole(a.n \div a.d)
Floor(a) == Whole(a.n \div a.d)
Ceil(a) == Neg(Floor(Neg(a)))
Round(a) == LET h == Whole((2 * Abs(a.n) + a.d) \div (2 * a.d)) IN IF a.n < 0 THEN Neg(h) ELSE h
\* remainder of a division rounded towards zero
Rem(a, b) == IF b.n = 0 THEN No
             ELSE LET k == (Abs(a.n) * b.d) \div (a.d * Abs(b.n))
                      s == IF (a.n < 0) # (b.n < 0) THEN -k ELSE k
                  IN IF k > 30000 THEN No ELSE LET p == Mul(Whole(s), b) IN IF p.ok THEN Sub(a, p) ELSE No
\* remainder of a division rounded to the nearest integer, ties to even
Rem2(a, b) == IF b.n = 0 THEN No
              ELSE LET u == Abs(a.n) * b.d
                       v == a.d * Abs(b.n)
                       k == u \div v
                       r == u % v
                       m == IF 2 * r > v \/ (2 * r = v /\ k % 2 = 1) THEN k + 1 ELSE k
                       s == IF (a.n < 0) # (b.n < 0) THEN -m ELSE m
                   IN IF m > 30000 THEN No ELSE LET p == Mul(Whole(s), b) IN IF p.ok THEN Sub(a, p) ELSE No
RECURSIVE Times(_, _)
Times(a, k) == IF k = 0 THEN Whole(1) ELSE LET r == Times(a, k - 1) IN IF r.ok THEN Mul(r, a) ELSE No
Pow(a, b) == IF b.d # 1 \/ Abs(b.n) > 12 THEN No
             ELSE IF b.n >= 0 THEN Times(a, b.n)
             ELSE IF a.n = 0 THEN No ELSE LET r == Div(Whole(1), a) IN IF r.ok THEN Times(r, -b.n) ELSE No
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Factorial(a) == IF a.d = 1 /\ a.n >= 0 /\ a.n <= 7 THEN Whole(Fact(a.n)) ELSE No
Sqrt(a) == IF a.d \notin {1, 4, 16} \/ a.n < 0 THEN No
           ELSE LET r == {x \in 0..173 : x * x = a.n}
                    e == CASE a.d = 1 -> 1 [] a.d = 4 -> 2 [] OTHER -> 4
                IN IF r = {} THEN No ELSE Fix(CHOOSE x \in r : TRUE, e)
Unary(s, a) == IF ~a.ok THEN No ELSE CASE s = "+" -> a [] s = "-" -> Neg(a) [] OTHER -> Factorial(a)
Binary(s, a, b) ==
  IF ~a.ok \/ ~b.ok THEN No
  ELSE CASE s = "+" -> Add(a, b) [] s = "-" -> Sub(a, b) [] s = "*" -> Mul(a, b) [] s = "/" -> Div(a, b)
         [] s = "%" -> Rem(a, b) [] s = "^" -> Pow(a, b)
         [] s = "<" -> B(Less(a, b)) [] s = ">" -> B(Less(b, a)) [] s = "<=" -> B(~Less(b, a)) [] s = ">=" -> B(~Less(a, b))
         [] s = "==" -> B(a = b) [] OTHER -> B(a # b)
RECURSIVE Best(_, _), Sum(_)
Best(as, big) == IF Len(as) = 1 THEN as[1]
                 ELSE LET r == Best(SubSeq(as, 1, Len(as) - 1), big)
                          x == as[Len(as)]
                      IN IF (big /\ Less(r, x)) \/ (~big /\ Less(x, r)) THEN x ELSE r
Sum(as) == IF as = <<>> THEN Whole(0) ELSE LET r == Sum(SubSeq(as, 1, Len(as) - 1)) IN IF r.ok THEN Add(r, as[Len(as)]) ELSE No
Call(f, as) ==
  IF f = "if" THEN (IF ~as[1].ok THEN No ELSE IF as[1].n # 0 THEN as[2] ELSE as[3])
  ELSE IF \E i \in 1..Len(as) : ~as[i].ok THEN No
  ELSE CASE f \in {"abs", "fabs"} -> Fix(Abs(as[1].n), as[1].d)
         [] f \in {"max", "fmax"} -> Best(as, TRUE)
         [] f \in {"min", "fmin"} -> Best(as, FALSE)
         [] f = "avg" -> LET s == Sum(as) IN IF s.ok THEN Div(s, Whole(Len(as))) ELSE No
         [] f = "floor" -> Floor(as[1])
         [] f = "ceil" -> Ceil(as[1])
         [] f = "trunc" -> Trunc(as[1])
         [] f = "round" -> Round(as[1])
         [] f = "pow" -> Pow(as[1], as[2])
         [] f = "fmod" -> Rem(as[1], as[2])
         [] f = "remainder" -> Rem2(as[1], as[2])
         [] f = "fdim" -> IF Less(as[2], as[1]) THEN Sub(as[1], as[2]) ELSE Whole(0)
         [] f = "fma" -> LET m == Mul(as[1], as[2]) IN IF m.ok THEN Add(m, as[3]) ELSE No
         [] f = "copysign" -> IF as[2].n = 0 THEN No ELSE IF (as[1].n < 0) = (as[2].n < 0) THEN as[1] ELSE Neg(as[1])
         [] f = "sqrt" -> Sqrt(as[1])
         [] f \in {"ldexp", "scalbn"} -> LET p == Pow(Whole(2), as[2]) IN IF p.ok THEN Mul(as[1], p) ELSE No
         [] f = "exp2" -> Pow(Whole(2), as[1])
         [] OTHER -> No
Look(env, s) == LET i == CHOOSE j \in 1..Len(env) : env[j].s = s IN Fix(env[i].n, env[i].d)

\* ------------------------------- trees ----------------------------------
\* [t |-> "num", n, d]  [t |-> "var", s]  [t |-> "un", s, a]  [t |-> "bin", s, l, r]  [t |-> "call", s, as]
RECURSIVE Value(_, _), PostOrder(_), Cat(_), Fits(_)
Value(x, env) == CASE x.t = "num" -> Fix(x.n, x.d)
                   [] x.t = "var" -> Look(env, x.s)
                   [] x.t = "un" -> Unary(x.s, Value(x.a, env))
                   [] x.t = "bin" -> Binary(x.s, Value(x.l, env), Value(x.r, env))
                   [] OTHER -> Call(x.s, [i \in 1..Len(x.as) |-> Value(x.as[i], env)])
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
PostOrder(x) == CASE x.t = "num" -> <<T("num", "", x.n, x.d)>>
                  [] x.t = "var" -> <<T("var", x.s, 0, 1)>>
                  [] x.t = "un" -> PostOrder(x.a) \o <<T("un", x.s, 0, 1)>>
                  [] x.t = "bin" -> PostOrder(x.l) \o PostOrder(x.r) \o <<T("bin", x.s, 0, 1)>>
                  [] OTHER -> Cat([i \in 1..Len(x.as) |-> PostOrder(x.as[i])]) \o <<T("call", x.s, Len(x.as), 1)>>
Fits(x) == CASE x.t \in {"num", "var"} -> TRUE
             [] x.t = "un" -> Fits(x.a)
             [] x.t = "bin" -> Fits(x.l) /\ Fits(x.r)
             [] OTHER -> Arity(x.s, Len(x.as)) /\ \A i \in 1..Len(x.as) : Fits(x.as[i])
Level(x) == CASE x.t = "bin" /\ x.s \in {"<", ">", "<=", ">=", "==", "!="} -> 1
              [] x.t = "bin" /\ x.s \in {"+", "-"} -> 2
              [] x.t = "bin" /\ x.s \in {"*", "/", "%"} -> 3
              [] x.t = "un" /\ x.s # "!" -> 4
              [] x.t = "bin" -> 5
              [] x.t = "un" -> 6
              [] OTHER -> 7
\* text of a tree, as loosely bracketed as the grammar allows where an expression of level lv is wanted, plus x.p superfluous pairs
RECURSIVE Text(_, _), Wrap(_, _), Args(_)
Wrap(s, n) == IF n = 0 THEN s ELSE Wrap(<<Open>> \o s \o <<Close>>, n - 1)
Args(as) == IF Len(as) = 1 THEN Text(as[1], 1) ELSE Text(as[1], 1) \o <<Comma>> \o Args(Tail(as))
Text(x, lv) ==
  LET body == CASE x.t = "num" -> <<T("num", "", x.n, x.d)>>
                [] x.t = "var" -> <<T("var", x.s, 0, 1)>>
                [] x.t = "un" /\ x.s = "!" -> Text(x.a, 6) \o <<Op("!")>>
                [] x.t = "un" -> <<Op(x.s)>> \o Text(x.a, 4)
                [] x.t = "bin" /\ x.s = "^" -> Text(x.l, 6) \o <<Op("^")>> \o Text(x.r, 4)
                [] x.t = "bin" -> LET l == Text(x.l, Level(x))
                                      l2 == IF x.s = "==" /\ l[Len(l)] = Op("!") THEN Wrap(l, 1) ELSE l   \* !== would read as != =
                                  IN l2 \o <<Op(x.s)>> \o Text(x.r, Level(x) + 1)
                [] OTHER -> <<Fn(x.s)>> \o Args(x.as) \o <<Close>>
  IN Wrap(body, IF x.p = 0 /\ Level(x) < lv THEN 1 ELSE x.p)

\* ------------------------------- grammar --------------------------------
\* all trees that derive toks[i..j]
Is(t, i, ops) == t[i].k = "op" /\ t[i].s \in ops
Bin(s, l, r) == [t |-> "bin", s |-> s, l |-> l, r |-> r]
RECURSIVE GCmp(_, _, _), GAdd(_, _, _), GMul(_, _, _), GUn(_, _, _), GPow(_, _, _), GPost(_, _, _), GPrim(_, _, _), GArgs(_, _, _)
Mix(op, ls, rs) == UNION {{Bin(op, l, r) : l \in ls} : r \in rs}
GCmp(t, i, j) == IF i > j THEN {} ELSE GAdd(t, i, j) \cup UNION {Mix(t[k].s, GCmp(t, i, k - 1), GAdd(t, k + 1, j)) : k \in {k \in i + 1..j - 1 : Is(t, k, {"<", ">", "<=", ">=", "==", "!="})}}
GAdd(t, i, j) == IF i > j THEN {} ELSE GMul(t, i, j) \cup UNION {Mix(t[k].s, GAdd(t, i, k - 1), GMul(t, k + 1, j)) : k \in {k \in i + 1..j - 1 : Is(t, k, {"+", "-"})}}
GMul(t, i, j) == IF i > j THEN {} ELSE GUn(t, i, j) \cup UNION {Mix(t[k].s, GMul(t, i, k - 1), GUn(t, k + 1, j)) : k \in {k \in i + 1..j - 1 : Is(t, k, {"*", "/", "%"})}}
GUn(t, i, j) == IF i > j THEN {} ELSE GPow(t, i, j) \cup (IF Is(t, i, {"+", "-"}) THEN {[t |-> "un", s |-> t[i].s, a |-> a] : a \in GUn(t, i + 1, j)} ELSE {})
GPow(t, i, j) == IF i > j THEN {} ELSE GPost(t, i, j) \cup UNION {Mix("^", GPost(t, i, k - 1), GUn(t, k + 1, j)) : k \in {k \in i + 1..j - 1 : Is(t, k, {"^"})}}
GPost(t, i, j) == IF i > j THEN {} ELSE GPrim(t, i, j) \cup (IF Is(t, j, {"!"}) THEN {[t |-> "un", s |-> "!", a |-> a] : a \in GPost(t, i, j - 1)} ELSE {})
GPrim(t, i, j) == IF i > j THEN {}
                  ELSE IF i = j THEN (CASE t[i].k = "num" -> {[t |-> "num", n |-> t[i].n, d |-> t[i].d]}
                                        [] t[i].k = "var" -> {[t |-> "var", s |-> t[i].s]}
                                        [] OTHER -> {})
                  ELSE IF t[j].k # ")" THEN {}
                  ELSE IF t[i].k = "(" THEN GCmp(t, i + 1, j - 1)
                  ELSE IF t[i].k = "fn" THEN {[t |-> "call", s |-> t[i].s, as |-> as] : as \in {as \in GArgs(t, i + 1, j - 1) : Arity(t[i].s, Len(as))}}
                  ELSE {}
GArgs(t, i, j) == {<<a>> : a \in GCmp(t, i, j)}
                  \cup UNION {UNION {{<<a>> \o r : a \in GCmp(t, i, k - 1)} : r \in GArgs(t, k + 1, j)} : k \in {k \in i + 1..j - 1 : t[k].k = ","}}
Trees == GCmp(toks, 1, Len(toks))

\* ------------------------------- machine --------------------------------
\* numbers are told apart by their place, so that the order of the operands shows
Alphabet == <<"num", "-", "*", "^", "!", "<", "(", ")", ",", "fn", "fn2">>
Tok(w, i) == CASE Alphabet[w[i]] = "num" -> T("num", "", i + 1, 1)
               [] Alphabet[w[i]] = "(" -> Open [] Alphabet[w[i]] = ")" -> Close [] Alphabet[w[i]] = "," -> Comma
               [] Alphabet[w[i]] = "fn" -> Fn("max") [] Alphabet[w[i]] = "fn2" -> Fn("fdim")
               [] OTHER -> Op(Alphabet[w[i]])
Words == {w \in UNION {[1..n -> 1..Len(Alphabet)] : n \in 0..MaxLen} : \A i \in 1..Len(w) - 1 : ~(w[i] = 1 /\ w[i + 1] = 1)}
Start(t, x, e) == toks = t /\ tree = x /\ envs = e /\ pos = 1 /\ q = <<>> /\ st = <<>> /\ want = TRUE /\ phase = "read"
Init == \/ \E w \in Words : Start([i \in 1..Len(w) |-> Tok(w, i)], NoTree, <<<<>>>>)
        \/ \E i \in 1..Len(Given) : LET g == Given[i] IN
             IF g.kind = "tree" THEN Start(Text(g.tree, 1), g.tree, g.envs) ELSE Start(g.toks, NoTree, g.envs)

Prec(x) == CASE x.k = "un" /\ x.s = "!" -> 6 [] x.k = "un" -> 4
             [] x.k = "bin" /\ x.s = "^" -> 5 [] x.k = "bin" /\ x.s \in {"*", "/", "%"} -> 3
             [] x.k = "bin" /\ x.s \in {"+", "-"} -> 2 [] x.k = "bin" -> 1 [] OTHER -> 0
Cur == toks[pos]
Rest == SubSeq(st, 1, Len(st) - 1)
Last == st[Len(st)]
Push(x) == st' = Append(st, x)
Move(w) == pos' = pos + 1 /\ want' = w
Same == UNCHANGED <<toks, tree, envs>>
Reading == phase = "read" /\ pos <= Len(toks)
PopOut == q' = Append(q, Last) /\ st' = Rest /\ UNCHANGED <<pos, want, phase>> /\ Same
Operand == Reading /\ Cur.k \in {"num", "var"} /\ want /\ q' = Append(q, Cur) /\ Move(FALSE) /\ UNCHANGED <<st, phase>> /\ Same
Prefix == Reading /\ Cur.k = "op" /\ Cur.s \in {"+", "-"} /\ want /\ Push(T("un", Cur.s, 0, 1)) /\ Move(TRUE) /\ UNCHANGED <<q, phase>> /\ Same
Postfix == Reading /\ Cur.k = "op" /\ Cur.s = "!" /\ ~want /\ Push(T("un", "!", 0, 1)) /\ Move(FALSE) /\ UNCHANGED <<q, phase>> /\ Same
IsBin == Reading /\ Cur.k = "op" /\ Cur.s # "!" /\ ~want
Binds == LET p == Prec(T("bin", Cur.s, 0, 1)) IN st # <<>> /\ (IF Cur.s = "^" THEN p < Prec(Last) ELSE p <= Prec(Last))
BinPop == IsBin /\ Binds /\ PopOut
BinPush == IsBin /\ ~Binds /\ Push(T("bin", Cur.s, 0, 1)) /\ Move(TRUE) /\ UNCHANGED <<q, phase>> /\ Same
OpenStep == Reading /\ Cur.k \in {"(", "fn"} /\ want /\ Push(T(Cur.k, Cur.s, 0, 1)) /\ Move(TRUE) /\ UNCHANGED <<q, phase>> /\ Same
Shut == Reading /\ Cur.k \in {")", ","} /\ ~want
ShutPop == Shut /\ st # <<>> /\ Last.k \in {"un", "bin"} /\ PopOut
CloseStep == /\ Shut /\ Cur.k = ")" /\ st # <<>> /\ Last.k \in {"(", "fn"}
             /\ Last.k = "fn" => Arity(Last.s, Last.n + 1)
             /\ q' = IF Last.k = "(" THEN q ELSE Append(q, T("call", Last.s, Last.n + 1, 1))
             /\ st' = Rest /\ Move(FALSE) /\ UNCHANGED phase /\ Same
CommaStep == /\ Shut /\ Cur.k = "," /\ st # <<>> /\ Last.k = "fn"
             /\ st' = Append(Rest, [Last EXCEPT !.n = @ + 1]) /\ Move(TRUE) /\ UNCHANGED <<q, phase>> /\ Same
Drain == phase = "read" /\ pos > Len(toks) /\ ~want /\ st # <<>> /\ Last.k \in {"un", "bin"} /\ PopOut
Finish == phase = "read" /\ pos > Len(toks) /\ ~want /\ st = <<>> /\ phase' = "done" /\ UNCHANGED <<pos, q, st, want>> /\ Same
Step == Operand \/ Prefix \/ Postfix \/ BinPop \/ BinPush \/ OpenStep \/ ShutPop \/ CloseStep \/ CommaStep \/ Drain \/ Finish
Reject == phase = "read" /\ ~(ENABLED Step) /\ phase' = "bad" /\ UNCHANGED <<pos, q, st, want>> /\ Same
Next == Step \/ Reject
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the stack machine
RECURSIVE Run(_, _, _)
Run(p, s, env) ==
  IF p = <<>> THEN s
  ELSE LET x == p[1]
           n == Len(s)
           keep(k) == SubSeq(s, 1, n - k)
       IN Run(Tail(p), CASE x.k = "num" -> Append(s, Fix(x.n, x.d))
                         [] x.k = "var" -> Append(s, Look(env, x.s))
                         [] x.k = "un" -> Append(keep(1), Unary(x.s, s[n]))
                         [] x.k = "bin" -> Append(keep(2), Binary(x.s, s[n - 1], s[n]))
                         [] OTHER -> Append(keep(x.n), Call(x.s, SubSeq(s, n - x.n + 1, n))), env)
Vals == [i \in 1..Len(envs) |-> Run(q, <<>>, envs[i])[1]]

\* ------------------------------ properties ------------------------------
IsTree == tree.t # "none"
Small == Len(toks) <= 7
\* one meaning per text, and the machine finds it or rejects the text
OneMeaning == (phase # "read" /\ ~IsTree /\ Small) =>
   LET ts == Trees IN /\ Cardinality(ts) <= 1
                      /\ phase = "bad" => ts = {}
                      /\ phase = "done" => \A t \in ts : q = PostOrder(t) /\ \A i \in 1..Len(envs) : Vals[i] = Value(t, envs[i])
                      /\ phase = "done" => ts # {}
TreeRight == (phase # "read" /\ IsTree) =>
   /\ (phase = "done") = Fits(tree)
   /\ phase = "done" => q = PostOrder(tree) /\ \A i \in 1..Len(envs) : Vals[i] = Value(tree, envs[i])
RECURSIVE Depth(_), Owed(_)
Depth(p) == IF p = <<>> THEN 0 ELSE Depth(Tail(p)) + (CASE p[1].k \in {"num", "var"} -> 1 [] p[1].k = "un" -> 0 [] p[1].k = "bin" -> -1 [] OTHER -> 1 - p[1].n)
Owed(s) == IF s = <<>> THEN 0 ELSE Owed(Tail(s)) + (IF s[1].k = "bin" THEN 1 ELSE IF s[1].k = "fn" THEN s[1].n ELSE 0)
\* every operator waiting on the stack has its left operand, and its right one unless an operand is wanted
Balanced == phase = "read" => Depth(q) = Owed(st) + (IF want THEN 0 ELSE 1)
Terminates == <>(phase # "read")
Emit == phase # "read" => PrintT(ToJson([toks |-> toks, ok |-> phase = "done", vals |-> IF phase = "done" THEN Vals ELSE <<>>, n |-> Len(envs), envs |-> envs]))
=============================================================================
