------------------------------ MODULE CalModel ------------------------------
(***************************************************************************)
(* Design model of the readers as a whole: several callers, each with a    *)
(* sequence of calls, use the parsers and ReadCalibration at the same time.*)
(* Modelled is everything the calls share (the lock of the A2L parser, its *)
(* token list and module count, the logger) and how ReadCalibration starts *)
(* two reader routines and collects their results through an error channel *)
(* of capacity 2, two result channels of capacity 1 and a wait group.      *)
(*                                                                         *)
(* A call is written as two letters: the A2L file (- for none) and the hex *)
(* file (- for none); both: ReadCalibration.                               *)
(*   A2L  a, c one module   m two modules   b broken   n missing           *)
(*   hex  i Intel HEX   s S-record   x broken   o other extension  n missing*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Ops,      \* the calls that may be made
          Lens,     \* Lens[c]: how many calls caller c makes at most
          Locked,   \* the A2L parser serialises its calls (FALSE: to see that the model notices)
          Cap       \* capacity of the error channel

Callers == 1..Len(Lens)
Roles == {"M", "A", "H"}      \* the caller itself and the two routines ReadCalibration starts
Procs == Callers \X Roles

FileA(op) == SubSeq(op, 1, 1)
FileH(op) == SubSeq(op, 2, 2)
IsCal(op) == FileA(op) # "-" /\ FileH(op) # "-"

\* what a call has to deliver, from its files alone
ResA(f) == IF f \in {"b", "n"} THEN "error" ELSE f
ResH(f) == IF f \in {"x", "o", "n"} THEN "error" ELSE f
Expected(op) ==
  IF IsCal(op) THEN IF "error" \in {ResA(FileA(op)), ResH(FileH(op))} THEN << "error", "error" >> ELSE << FileA(op), FileH(op) >>
  ELSE IF FileH(op) = "-" THEN << ResA(FileA(op)), "-" >> ELSE << "-", ResH(FileH(op)) >>

Modules(f) == IF f = "m" THEN 2 ELSE 1

VARIABLES prog, done, pc, lock, tokens, mods, logger, errs, chA, chH, wg, closed, got
vars == << prog, done, pc, lock, tokens, mods, logger, errs, chA, chH, wg, closed, got >>

None == << 0, "-" >>
Programs(c) == UNION { [1..n -> Ops] : n \in 1..Lens[c] }

Init ==
  /\ prog \in { f \in [Callers -> UNION { Programs(c) : c \in Callers }] : \A c \in Callers : f[c] \in Programs(c) }
  /\ done = [c \in Callers |-> << >>]
  /\ pc = [p \in Procs |-> IF p[2] = "M" THEN "idle" ELSE "off"]
  /\ lock = None /\ tokens = << >> /\ mods = 0 /\ logger = None
  /\ errs = [c \in Callers |-> << >>]
  /\ chA = [c \in Callers |-> << >>] /\ chH = [c \in Callers |-> << >>]
  /\ wg = [c \in Callers |-> 0] /\ closed = [c \in Callers |-> FALSE]
  /\ got = [p \in Procs |-> ""]

Op(c) == prog[c][Len(done[c]) + 1]
More(c) == Len(done[c]) < Len(prog[c])
Goto(p, l) == pc' = [pc EXCEPT ![p] = l]
Finish(c, r) == done' = [done EXCEPT ![c] = Append(@, r)]

\* ------------------------------------------------------------ the caller
Begin(c) ==
  LET p == << c, "M" >> IN
  /\ pc[p] = "idle" /\ More(c)
  /\ Goto(p, IF IsCal(Op(c)) THEN "log" ELSE IF FileH(Op(c)) = "-" THEN "lock" ELSE "hex")
  /\ UNCHANGED << prog, done, lock, tokens, mods, logger, errs, chA, chH, wg, closed, got >>

\* the logger is configured under a lock, by the first call only
Log(c) ==
  LET p == << c, "M" >> IN
  /\ \/ pc[p] = "log" /\ logger = None /\ logger' = p /\ Goto(p, "logged")
     \/ pc[p] = "logged" /\ logger' = None /\ Goto(p, "spawn")
  /\ UNCHANGED << prog, done, lock, tokens, mods, errs, chA, chH, wg, closed, got >>

Spawn(c) ==
  /\ pc[<< c, "M" >>] = "spawn"
  /\ pc' = [pc EXCEPT ![<< c, "M" >>] = "wait", ![<< c, "A" >>] = "lock", ![<< c, "H" >>] = "hex"]
  /\ wg' = [wg EXCEPT ![c] = 2]
  /\ errs' = [errs EXCEPT ![c] = << >>] /\ chA' = [chA EXCEPT ![c] = << >>] /\ chH' = [chH EXCEPT ![c] = << >>]
  /\ closed' = [closed EXCEPT ![c] = FALSE]
  /\ UNCHANGED << prog, done, lock, tokens, mods, logger, got >>

Collect(c) ==
  LET p == << c, "M" >> IN
  /\ pc[p] = "wait" /\ wg[c] = 0
  /\ closed' = [closed EXCEPT ![c] = TRUE]
  /\ Finish(c, IF errs[c] # << >> THEN << "error", "error" >> ELSE << chA[c][1], chH[c][1] >>)
  /\ Goto(p, "idle")
  /\ UNCHANGED << prog, lock, tokens, mods, logger, errs, chA, chH, wg, got >>

\* ------------------------------------------------------------ the A2L parser, run by p
A2L(p) ==
  LET c == p[1]
      f == FileA(Op(c))
  IN
  \/ /\ pc[p] = "lock" /\ (Locked => lock = None)
     /\ lock' = p /\ Goto(p, "read")
     /\ UNCHANGED << tokens, mods, got >>
  \/ /\ pc[p] = "read"
     /\ got' = [got EXCEPT ![p] = IF f = "n" THEN "error" ELSE ""]
     /\ Goto(p, IF f = "n" THEN "unlock" ELSE "reset")
     /\ UNCHANGED << lock, tokens, mods >>
  \/ /\ pc[p] = "reset"      \* the token list of the last call is dropped
     /\ tokens' = << >> /\ mods' = 0 /\ Goto(p, "fill1")
     /\ UNCHANGED << lock, got >>
  \/ /\ pc[p] \in {"fill1", "fill2"}
     /\ tokens' = Append(tokens, f)
     /\ mods' = IF pc[p] = "fill2" THEN mods + Modules(f) ELSE mods
     /\ Goto(p, IF pc[p] = "fill1" THEN "fill2" ELSE "parse")
     /\ UNCHANGED << lock, got >>
  \/ /\ pc[p] = "parse"      \* the parsers read the shared list; the module count selects how
     /\ got' = [got EXCEPT ![p] = IF tokens = << f, f >> /\ mods = Modules(f) THEN ResA(f) ELSE "mixed"]
     /\ Goto(p, "unlock")
     /\ UNCHANGED << lock, tokens, mods >>
  \/ /\ pc[p] = "unlock"
     /\ lock' = None /\ Goto(p, "sendA")
     /\ UNCHANGED << tokens, mods, got >>

\* ------------------------------------------------------------ delivering
Hex(p) ==
  /\ pc[p] = "hex"
  /\ got' = [got EXCEPT ![p] = ResH(FileH(Op(p[1])))]
  /\ Goto(p, "sendH")

Return(p) ==      \* the caller itself ran the parser
  /\ p[2] = "M" /\ pc[p] \in {"sendA", "sendH"}
  /\ Finish(p[1], IF pc[p] = "sendA" THEN << got[p], "-" >> ELSE << "-", got[p] >>)
  /\ Goto(p, "idle")
  /\ UNCHANGED << prog, lock, tokens, mods, logger, errs, chA, chH, wg, closed, got >>

Send(p) ==
  LET c == p[1] IN
  /\ p[2] # "M"
  /\ \/ /\ pc[p] \in {"sendA", "sendH"} /\ got[p] = "error" /\ Len(errs[c]) < Cap
        /\ errs' = [errs EXCEPT ![c] = Append(@, "error")]
        /\ UNCHANGED << chA, chH, wg >> /\ Goto(p, "done")
     \/ /\ pc[p] = "sendA" /\ got[p] # "error" /\ chA[c] = << >>
        /\ chA' = [chA EXCEPT ![c] = << got[p] >>]
        /\ UNCHANGED << errs, chH, wg >> /\ Goto(p, "done")
     \/ /\ pc[p] = "sendH" /\ got[p] # "error" /\ chH[c] = << >>
        /\ chH' = [chH EXCEPT ![c] = << got[p] >>]
        /\ UNCHANGED << errs, chA, wg >> /\ Goto(p, "done")
     \/ /\ pc[p] = "done" /\ wg' = [wg EXCEPT ![c] = @ - 1]
        /\ UNCHANGED << errs, chA, chH >> /\ Goto(p, "off")
  /\ UNCHANGED << prog, done, lock, tokens, mods, logger, closed, got >>

Over == \A c \in Callers : ~More(c)

Next ==
  \/ \E c \in Callers : Begin(c) \/ Log(c) \/ Spawn(c) \/ Collect(c)
  \/ \E p \in Procs : \/ A2L(p) /\ UNCHANGED << prog, done, logger, errs, chA, chH, wg, closed >>
                      \/ Hex(p) /\ UNCHANGED << prog, done, lock, tokens, mods, logger, errs, chA, chH, wg, closed >>
                      \/ Return(p) \/ Send(p)
  \/ Over /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------------------------------------ properties
\* C11, C12: every call delivers what its own files say, whatever came before and runs at the same time
Own == \A c \in Callers : \A k \in 1..Len(done[c]) : done[c][k] = Expected(prog[c][k])
\* nothing is sent once the error channel is closed
NoLateSend == \A c \in Callers : closed[c] => (pc[<< c, "A" >>] = "off" /\ pc[<< c, "H" >>] = "off") \/ pc[<< c, "M" >>] # "idle"
\* C13: every call comes to an end (no deadlock is TLC's own check)
Ends == <>Over

\* the programs, to be replayed on the real code
Report == Over => PrintT("CASE " \o ToString(prog))
=============================================================================
