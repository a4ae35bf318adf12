-------------------------------- MODULE Order --------------------------------
(***************************************************************************)
(* The design models (HexPipe, A2LPipe, CalModel) take every access of a   *)
(* routine to state it shares with others as one atomic step that happens  *)
(* behind what the routine waited for (lock, channel, wait group). An      *)
(* execution of the code is a behaviour of these models only if any two of *)
(* its accesses to the same place, one of them a write, are ordered in     *)
(* that way; otherwise what the models show for all interleavings says     *)
(* nothing about the code, and the outcome depends on the schedule.        *)
(* Judges recorded executions: an entry lists the pairs of accesses to the *)
(* same place that nothing orders. What the runner does with a result is   *)
(* an access of the caller.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)

VARIABLES l, bad, pairs
vars == <<l, bad, pairs>>

\* a pair has two accesses, each [kind: read/write, by: parser/caller/logger/other]; the state of the logger is no part of the
\* models: no result depends on it (that the first ReadCalibration replaces it while other callers may use it is a known finding)
Conflict(p) == \E a \in {p.first, p.second} : a.kind = "write"
Concerns(p) == /\ {p.first.by, p.second.by} \subseteq {"parser", "caller"}
               /\ "parser" \in {p.first.by, p.second.by}
Unordered(e) == { k \in 1..Len(e.pairs) : Conflict(e.pairs[k]) /\ Concerns(e.pairs[k]) }

Init == l = 0 /\ bad = << >> /\ pairs = 0

Step ==
  /\ l < Len(Trace)
  /\ LET e == Trace[l + 1]
         u == Unordered(e) IN
     /\ bad' = IF u = {} THEN bad ELSE
                 Append(bad, [id |-> e.id, result |-> CHOOSE k \in u : \A j \in u : k <= j,
                              why |-> "nothing orders two accesses to the same state"])
     /\ pairs' = pairs + Len(e.pairs)
  /\ l' = l + 1

Spec == Init /\ [][Step]_vars

Done == l = Len(Trace) =>
          JsonSerialize(IOEnv.VERIF_VERDICT, [judged |-> l, bad |-> bad, info |-> [unordered_pairs |-> pairs]])
=============================================================================
