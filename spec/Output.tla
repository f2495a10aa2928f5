------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* What the exit status promises.  A tool reads an input, piece by piece,   *)
(* and writes what it makes of it to one or more devices, through buffers.  *)
(* The source may fail after some pieces (a damaged file); a device takes   *)
(* only so many bytes (a full disk, a limit) or has lost its reader (a      *)
(* closed pipe).  A tool that spools first writes the pieces to a spool     *)
(* device and then makes its output of what the spool device holds.         *)
(*                                                                         *)
(* The status tells: 0 means that all of the input was read and all of the  *)
(* output arrived, unless its reader went away, which is no failure.        *)
(* Whatever happens, a device holds a prefix of what was to be written.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Cap,          \* of a buffer
          MaxPieces, MaxPiece,
          Flushing      \* TRUE; FALSE is a tool which leaves its last buffer to be dropped

VARIABLES tool,         \* [kind, pieces, src, lim, gone]
          pos,          \* pieces read
          made,         \* per device: bytes handed to its buffer
          buf, dev,     \* per device: bytes in the buffer, bytes arrived
          phase, status

vars == <<tool, pos, made, buf, dev, phase, status>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(SubSeq(s, 2, Len(s)))

Min(a, b) == IF a < b THEN a ELSE b

Kinds == {"plain", "split", "spool"}

\* "plain": device 1 gets everything.  "split": odd pieces to 1, even ones to 2.
\* "spool": everything to 2 (the spool), then to 1.
ToDev(k, i) == IF k = "spool" THEN 2 ELSE IF k = "split" /\ i % 2 = 0 THEN 2 ELSE 1

RECURSIVE Share(_, _, _, _)
Share(k, ps, d, i) == IF i > Len(ps) THEN 0
                      ELSE (IF ToDev(k, i) = d THEN ps[i] ELSE 0) + Share(k, ps, d, i + 1)

Whole(t, d) == IF t.kind = "spool" THEN Sum(t.pieces) ELSE Share(t.kind, t.pieces, d, 1)

RECURSIVE Seqs(_, _)
Seqs(S, n) == IF n = 0 THEN {<<>>} ELSE LET r == Seqs(S, n - 1) IN r \cup {<<x>> \o s : x \in S, s \in {q \in r : Len(q) = n - 1}}

Given == ndJsonDeserialize("given.ndjson")

Zero == <<0, 0>>

Pieces == Seqs(1..MaxPiece, MaxPieces)

Init == /\ \/ \E k \in Kinds, ps \in Pieces : \E s \in 0..Len(ps), a \in 0..(Sum(ps) + 1), g \in BOOLEAN :
                 \E b \in (IF k = "plain" THEN {0} ELSE 0..(Sum(ps) + 1)) :
                    tool = [kind |-> k, pieces |-> ps, src |-> s, lim |-> <<a, b>>, gone |-> g]
           \/ \E i \in DOMAIN Given : tool = Given[i]
        /\ pos = 0 /\ made = Zero /\ buf = Zero /\ dev = Zero
        /\ phase = "read" /\ status = "running"

\* the device takes what it has room for; when its reader is gone, `lim' is what was read before
Room(d) == tool.lim[d] - dev[d]
Taken(d, n) == Min(n, Room(d))
Broken(d) == IF tool.gone /\ d = 1 THEN "0" ELSE "1"

\* the buffer of d goes to the device: what arrives, what stays, and whether it failed
Spill(d) == LET n == Taken(d, buf[d])
            IN [dev |-> [dev EXCEPT ![d] = @ + n], buf |-> [buf EXCEPT ![d] = @ - n], ok |-> n = buf[d]]

\* n bytes for device d
Put(d, n) ==
   IF buf[d] + n <= Cap
   THEN /\ buf' = [buf EXCEPT ![d] = @ + n] /\ made' = [made EXCEPT ![d] = @ + n]
        /\ UNCHANGED <<dev, status>>
   ELSE LET s == Spill(d)
        IN IF ~s.ok THEN /\ dev' = s.dev /\ buf' = s.buf /\ status' = Broken(d) /\ UNCHANGED made
           ELSE IF n >= Cap        \* straight to the device
           THEN LET t == Min(n, Room(d) - buf[d])
                IN /\ dev' = [s.dev EXCEPT ![d] = @ + t] /\ buf' = s.buf
                   /\ made' = [made EXCEPT ![d] = @ + n]
                   /\ status' = IF t = n THEN status ELSE Broken(d)
           ELSE /\ dev' = s.dev /\ buf' = [s.buf EXCEPT ![d] = n]
                /\ made' = [made EXCEPT ![d] = @ + n] /\ UNCHANGED status

ReadPiece ==
   /\ status = "running" /\ phase = "read"
   /\ IF pos = Len(tool.pieces)
      THEN /\ phase' = (IF tool.kind = "spool" THEN "spooled" ELSE "flush") /\ UNCHANGED <<tool, pos, made, buf, dev, status>>
      ELSE IF pos >= tool.src
      THEN /\ status' = "1" /\ UNCHANGED <<tool, pos, made, buf, dev, phase>>
      ELSE /\ pos' = pos + 1
           /\ Put(ToDev(tool.kind, pos + 1), tool.pieces[pos + 1])
           /\ UNCHANGED <<tool, phase>>

\* the end of the first pass of a spooling tool: the spool is complete before it is read
Spooled ==
   /\ status = "running" /\ phase = "spooled"
   /\ LET s == Spill(2)
      IN /\ dev' = s.dev /\ buf' = [buf EXCEPT ![2] = 0]
         /\ IF s.ok \/ ~Flushing THEN phase' = "copy" /\ UNCHANGED status ELSE status' = "1" /\ UNCHANGED phase
   /\ UNCHANGED <<tool, pos, made>>

\* the second pass: a piece of what the spool holds
Copy ==
   /\ status = "running" /\ phase = "copy"
   /\ IF made[1] = dev[2] THEN phase' = "flush" /\ UNCHANGED <<made, buf, dev, status>>
      ELSE Put(1, Min(2, dev[2] - made[1])) /\ UNCHANGED phase
   /\ UNCHANGED <<tool, pos>>

\* every buffer out; the status is told only then
Flush ==
   /\ status = "running" /\ phase = "flush" /\ Flushing
   /\ LET d == IF buf[1] > 0 THEN 1 ELSE 2
          s == Spill(d)
      IN /\ dev' = s.dev /\ buf' = s.buf
         /\ status' = IF ~s.ok THEN Broken(d) ELSE IF s.buf = Zero THEN "0" ELSE status
   /\ UNCHANGED <<tool, pos, made, phase>>

\* what a tool does which does not flush: the buffer is dropped, and nobody learns how that went
Drop ==
   /\ status = "running" /\ phase = "flush" /\ ~Flushing
   /\ dev' = [d \in 1..2 |-> dev[d] + Taken(d, buf[d])]
   /\ status' = "0"
   /\ UNCHANGED <<tool, pos, made, buf, phase>>

Next == ReadPiece \/ Spooled \/ Copy \/ Flush \/ Drop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ended == status # "running"
Sound == tool.src >= Len(tool.pieces)
Outputs == IF tool.kind = "split" THEN {1, 2} ELSE {1}
Fits(d) == tool.lim[d] >= Whole(tool, d)

\* 0 is a promise
Honest == (status = "0" /\ ~tool.gone) => Sound /\ \A d \in Outputs : dev[d] = Whole(tool, d)
\* nothing is wrong without a cause
Works == (Ended /\ Sound /\ \A d \in 1..2 : Fits(d)) => status = "0" /\ \A d \in Outputs : dev[d] = Whole(tool, d)
\* a reader who goes away is no failure
Leaves == (Ended /\ Sound /\ tool.gone /\ Fits(2)) => status = "0"
Prefix == \A d \in 1..2 : dev[d] <= Whole(tool, d) /\ dev[d] <= tool.lim[d] /\ dev[d] <= made[d]
Terminates == <>Ended

\* what the status must be, by the definition alone; "?" leaves it open (the end of the input is not reached)
Verdict(t) == IF t.src < Len(t.pieces) THEN (IF t.gone THEN "?" ELSE "1")
              ELSE IF t.kind # "plain" /\ t.lim[2] < Whole(t, 2) THEN (IF t.gone THEN "?" ELSE "1")
              ELSE IF t.gone \/ t.lim[1] >= Whole(t, 1) THEN "0" ELSE "1"
Judged == Ended => Verdict(tool) \in {"?", status}

Emit == Ended => PrintT(ToJson([kind |-> tool.kind, pieces |-> tool.pieces, src |-> tool.src, lim |-> tool.lim, gone |-> tool.gone,
                                verdict |-> Verdict(tool), size |-> <<Whole(tool, 1), Whole(tool, 2)>>]))
=============================================================================
