-------------------------------- MODULE Glob ---------------------------------
(***************************************************************************)
(* Text::glob (src/text.rs): match a text against a shell pattern, with one  *)
(* retry point.  The machine is the loop of the code; positions instead of   *)
(* slices.  star is the position in the pattern just after the last star     *)
(* (0: none yet), retry the next position of the text at which what follows  *)
(* that star is to be tried.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxPat, MaxText, PatBytes, TextBytes
VARIABLES pat, text, nocase, w, b, star, retry, phase, res
vars == <<pat, text, nocase, w, b, star, retry, phase, res>>
Given == ndJsonDeserialize("given.ndjson")
STAR == 42
ANY == 63
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Same(p, c) == p = c \/ p = ANY \/ (nocase /\ Lower(p) = Lower(c))
Start(p, t, n) == pat = p /\ text = t /\ nocase = n /\ w = 1 /\ b = 1 /\ star = 0 /\ retry = 0 /\ phase = "head" /\ res = FALSE
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == \/ \E p \in Seqs(PatBytes, MaxPat), t \in Seqs(TextBytes, MaxText) : Start(p, t, FALSE)
        \/ \E n \in 1..Len(Given) : Start(Given[n].pat, Given[n].text, Given[n].nocase)
WEnd == w > Len(pat)
BEnd == b > Len(text)
Stop(r) == phase' = "done" /\ res' = r /\ UNCHANGED <<w, b, star, retry>>
Lead == /\ phase = "head"
        /\ IF ~BEnd /\ ~WEnd /\ pat[w] # STAR
             THEN IF Same(pat[w], text[b]) THEN w' = w + 1 /\ b' = b + 1 /\ UNCHANGED <<star, retry, phase, res>> ELSE Stop(FALSE)
             ELSE IF WEnd /\ ~BEnd THEN Stop(FALSE)
             ELSE phase' = "body" /\ UNCHANGED <<w, b, star, retry, res>>
        /\ UNCHANGED <<pat, text, nocase>>
Body == /\ phase = "body"
        /\ IF BEnd THEN phase' = "tail" /\ UNCHANGED <<w, b, star, retry, res>>
           ELSE IF ~WEnd /\ pat[w] = STAR
             THEN IF w = Len(pat) THEN Stop(TRUE)
                  ELSE w' = w + 1 /\ star' = w + 1 /\ retry' = b + 1 /\ UNCHANGED <<b, phase, res>>
           ELSE IF ~WEnd /\ Same(pat[w], text[b]) THEN w' = w + 1 /\ b' = b + 1 /\ UNCHANGED <<star, retry, phase, res>>
           ELSE w' = star /\ b' = retry /\ retry' = (IF retry > Len(text) THEN retry ELSE retry + 1) /\ UNCHANGED <<star, phase, res>>
        /\ UNCHANGED <<pat, text, nocase>>
Rest == /\ phase = "tail"
        /\ IF ~WEnd /\ pat[w] = STAR THEN w' = w + 1 /\ UNCHANGED <<b, star, retry, phase, res>> ELSE Stop(WEnd)
        /\ UNCHANGED <<pat, text, nocase>>
Next == Lead \/ Body \/ Rest
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ------------------------------- meaning --------------------------------
\* the positions of the text that can follow a match of the first n pattern characters
RECURSIVE Reach(_)
Reach(n) == IF n = 0 THEN {1}
            ELSE LET R == Reach(n - 1) IN
              IF pat[n] = STAR THEN {j \in 1..Len(text) + 1 : \E i \in R : i <= j}
              ELSE {i + 1 : i \in {i \in R : i <= Len(text) /\ Same(pat[n], text[i])}}
Means == (Len(text) + 1) \in Reach(Len(pat))
Right == phase = "done" => res = Means
\* a retry never skips a possible match: there always is a last star to go back to
Anchored == phase = "body" /\ ~BEnd => (star > 0 \/ (~WEnd /\ pat[w] = STAR))
Terminates == <>(phase = "done")
Emit == phase = "done" => PrintT(ToJson([pat |-> pat, text |-> text, nocase |-> nocase, yes |-> res]))
=============================================================================
