------------------------------ MODULE Registry -------------------------------
(***************************************************************************)
(* The registries of named comparators, matchers, aggregators, counters,      *)
(* transforms and generators, used from several threads of one process.       *)
(* A registry is filled with the built-in names by whichever call comes       *)
(* first; every call first makes sure of that, under a lock of its own        *)
(* (guard).  A make then replaces an alias and looks the name up, in two      *)
(* separately locked steps; a push and an alias replace or add one entry.     *)
(*   names: "b1", "b2" built in, "a" a built-in alias of b1, "n" not known,    *)
(*   "m" reserved, because it is a modifier in the registry's specs           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Guarded, MaxOps, AllPairs
VARIABLES prog, at, pc, guard, filled, regs, als, target, res, real, realAls, aset, vset
vars == <<prog, at, pc, guard, filled, regs, als, target, res, real, realAls, aset, vset>>

Given == ndJsonDeserialize("given.ndjson")
BuiltIn == <<"b1", "b2">>
Names == {"b1", "b2", "a", "n", "m"}
None == "none"
Ops == [op : {"make"}, x : Names \ {"m"}, y : {""}]
       \cup [op : {"push"}, x : {"b1", "n", "m"}, y : {"v1", "v2"}]
       \cup [op : {"alias"}, x : {"b2", "n"}, y : {"a", "n", "m"}]
\* a table is a function from names to values, None where there is no entry
Get(t, x) == t[x]
Empty == [x \in Names |-> None]
Resolve(t, x) == IF t[x] = None THEN x ELSE t[x]
Look(t, x) == t[x]
Start(p) == /\ prog = p
            /\ at = [t \in DOMAIN p |-> 1]
            /\ pc = [t \in DOMAIN p |-> "call"]
            /\ guard = 0 /\ filled = 0
            /\ regs = Empty /\ als = Empty
            /\ target = [t \in DOMAIN p |-> ""]
            /\ res = [t \in DOMAIN p |-> <<>>]
            /\ real = [Empty EXCEPT !["b1"] = "b1", !["b2"] = "b2"]      \* the registry as the user sees it
            /\ realAls = [Empty EXCEPT !["a"] = "b1"]
            /\ aset = [t \in DOMAIN p |-> {}] /\ vset = [t \in DOMAIN p |-> {}]
Init == \/ AllPairs /\ \E a, b \in UNION {[1..k -> Ops] : k \in 1..MaxOps} : Start(<<a, b>>)
        \/ \E i \in 1..Len(Given) : Start(Given[i].prog)

Cur(t) == prog[t][at[t]]
Active(t) == pc[t] # "call" /\ pc[t] # "end"
\* what a make in progress may answer: the alias as it was at some moment of the call,
\* the entry as it was at that moment or a later one
Watch(r, ra, who) ==
  /\ aset' = [t \in DOMAIN prog |-> IF t = who \/ ~ Active(t) THEN aset[t] ELSE aset[t] \cup {Resolve(ra, Cur(t).x)}]
  /\ vset' = [t \in DOMAIN prog |-> IF t = who \/ ~ Active(t) THEN vset[t]
                 ELSE vset[t] \cup {Look(r, y) : y \in aset[t] \cup {Resolve(ra, Cur(t).x)}}]
Quiet == UNCHANGED <<real, realAls, aset, vset>>
Go(t, p) == pc' = [pc EXCEPT ![t] = p]

\* the call begins
Call(t) == /\ pc[t] = "call" /\ at[t] <= Len(prog[t])
           /\ Go(t, "guard")
           /\ aset' = [aset EXCEPT ![t] = {Resolve(realAls, Cur(t).x)}]
           /\ vset' = [vset EXCEPT ![t] = {Look(real, Resolve(realAls, Cur(t).x))}]
           /\ UNCHANGED <<prog, at, guard, filled, regs, als, target, res, real, realAls>>
Lock(t) == /\ pc[t] = "guard"
           /\ IF Guarded THEN guard = 0 /\ guard' = t ELSE guard' = guard
           /\ Go(t, "check") /\ UNCHANGED <<prog, at, filled, regs, als, target, res>> /\ Quiet
Check(t) == /\ pc[t] = "check"
            /\ IF regs # Empty THEN Go(t, "unlock") ELSE Go(t, "fillalias")
            /\ UNCHANGED <<prog, at, guard, filled, regs, als, target, res>> /\ Quiet
FillAlias(t) == /\ pc[t] = "fillalias"
                /\ als' = [als EXCEPT !["a"] = "b1"] /\ Go(t, "fill1")
                /\ UNCHANGED <<prog, at, guard, filled, regs, target, res>> /\ Quiet
Fill1(t) == /\ pc[t] = "fill1"
            /\ regs' = [regs EXCEPT !["b1"] = "b1"] /\ filled' = filled + 1 /\ Go(t, "fill2")
            /\ UNCHANGED <<prog, at, guard, als, target, res>> /\ Quiet
Fill2(t) == /\ pc[t] = "fill2"
            /\ regs' = [regs EXCEPT !["b2"] = "b2"] /\ filled' = filled + 1 /\ Go(t, "unlock")
            /\ UNCHANGED <<prog, at, guard, als, target, res>> /\ Quiet
Unlock(t) == /\ pc[t] = "unlock"
             /\ guard' = (IF Guarded THEN 0 ELSE guard)
             /\ Go(t, IF Cur(t).op = "make" THEN "resolve" ELSE "store")
             /\ UNCHANGED <<prog, at, filled, regs, als, target, res>> /\ Quiet
ResolveIt(t) == /\ pc[t] = "resolve"
                /\ target' = [target EXCEPT ![t] = Resolve(als, Cur(t).x)] /\ Go(t, "lookup")
                /\ UNCHANGED <<prog, at, guard, filled, regs, als, res>> /\ Quiet
Finish(t, v) == /\ res' = [res EXCEPT ![t] = Append(@, v)]
                /\ at' = [at EXCEPT ![t] = @ + 1]
                /\ Go(t, IF at[t] = Len(prog[t]) THEN "end" ELSE "call")
LookUp(t) == /\ pc[t] = "lookup"
             /\ Finish(t, Look(regs, target[t]))
             /\ UNCHANGED <<prog, guard, filled, regs, als, target>> /\ Quiet
\* a reserved name is never given a meaning of its own
Refused(o) == (o.op = "push" /\ o.x = "m") \/ (o.op = "alias" /\ o.y = "m")
Store(t) == /\ pc[t] = "store"
            /\ LET o == IF Refused(Cur(t)) THEN [op |-> "nothing", x |-> "m", y |-> "m"] ELSE Cur(t) IN
               /\ regs' = (IF o.op = "push" THEN [regs EXCEPT ![o.x] = o.y] ELSE regs)
               /\ als' = (IF o.op = "alias" THEN [als EXCEPT ![o.y] = o.x] ELSE als)
               /\ real' = (IF o.op = "push" THEN [real EXCEPT ![o.x] = o.y] ELSE real)
               /\ realAls' = (IF o.op = "alias" THEN [realAls EXCEPT ![o.y] = o.x] ELSE realAls)
               /\ Watch(real', realAls', t)
            /\ Finish(t, IF Refused(Cur(t)) THEN "refused" ELSE "ok")
            /\ UNCHANGED <<prog, guard, filled, target>>
Step(t) == Call(t) \/ Lock(t) \/ Check(t) \/ FillAlias(t) \/ Fill1(t) \/ Fill2(t) \/ Unlock(t) \/ ResolveIt(t) \/ LookUp(t) \/ Store(t)
Next == \E t \in DOMAIN prog : Step(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllDone == \A t \in DOMAIN prog : pc[t] = "end"
Terminates == <>AllDone
\* every answer is one the user could have got from a registry that was never empty
Explained == \A t \in DOMAIN prog : (pc[t] = "lookup") => Look(regs, target[t]) \in vset[t]
BuiltInKnown == \A t \in DOMAIN prog : \A i \in 1..Len(res[t]) :
   (prog[t][i].op = "make" /\ prog[t][i].x \in {"b1", "b2"}) => res[t][i] # None
FilledOnce == Guarded => filled <= 2
ReservedFree == regs["m"] = None /\ als["m"] = None
Settled == AllDone => regs = real /\ als = realAls
Emit == AllDone => PrintT(ToJson([prog |-> prog, res |-> res]))
=============================================================================
