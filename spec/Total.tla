-------------------------------- MODULE Total --------------------------------
(***************************************************************************)
(* The weakest demand on every call of a reader, for files of any content: *)
(* it ends, with a result or with an error, and not by taking the process  *)
(* down. Judges recorded calls; an execution that did not end is recorded  *)
(* with the outcome hang, one that took the process down with crash.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)

VARIABLES l, bad, nok, nerr
vars == <<l, bad, nok, nerr>>

Answers == {"ok", "error"}
Failed(e) == { k \in 1..Len(e.outcomes) : e.outcomes[k] \notin Answers }
Count(e, o) == Cardinality({ k \in 1..Len(e.outcomes) : e.outcomes[k] = o })

Init == l = 0 /\ bad = << >> /\ nok = 0 /\ nerr = 0

Step ==
  /\ l < Len(Trace)
  /\ LET e == Trace[l + 1]
         f == Failed(e) IN
     /\ bad' = IF f = {} THEN bad ELSE LET k == CHOOSE x \in f : \A y \in f : x <= y IN
                 Append(bad, [id |-> e.id, result |-> k, why |-> "no answer: " \o e.outcomes[k]])
     /\ nok' = nok + Count(e, "ok")
     /\ nerr' = nerr + Count(e, "error")
  /\ l' = l + 1

Spec == Init /\ [][Step]_vars

Done == l = Len(Trace) =>
          JsonSerialize(IOEnv.VERIF_VERDICT, [judged |-> l, bad |-> bad, info |-> [answers_ok |-> nok, answers_error |-> nerr]])
=============================================================================
