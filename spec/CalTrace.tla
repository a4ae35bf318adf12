------------------------------ MODULE CalTrace ------------------------------
(***************************************************************************)
(* Judges recorded histories of calls of the real readers. An entry holds  *)
(* the files that were there and the calls with their results, in the      *)
(* order of each caller; kept tells whether a result was still the same    *)
(* when all calls were over. Every call has to deliver what CalSem derives *)
(* from its own files, wherever in the history and next to whatever other  *)
(* calls it stands.                                                        *)
(***************************************************************************)
EXTENDS CalSem, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)

VARIABLES l, bad, nok, nerr, open
vars == <<l, bad, nok, nerr, open>>

ImageOf(runs) ==
  UNION { { << AddrPlus(runs[k][1], runs[k][2], i - 1), runs[k][3][i] >> : i \in 1..Len(runs[k][3]) }
          : k \in 1..Len(runs) }
LeavesOf(r) == { r.leaves[i] : i \in 1..Len(r.leaves) }

Nothing == [there |-> FALSE, text |-> "", codes |-> << >>, lines |-> << >>]
File(e, i) == IF i = 0 THEN Nothing ELSE e.files[i]

DueOf(e, c) == Due(c.op, File(e, c.a), File(e, c.h), c.path)

Same(exp, c) ==
  /\ c.outcome = "ok"
  /\ c.op \in {"a2l", "readcal"} => LeavesOf(c) = exp.leaves
  /\ c.op # "a2l" => ImageOf(c.runs) = exp.image
  /\ c.op = "readcal" => c.idx = 0
  /\ c.kept

Conforms(exp, c) ==
  CASE exp.v = "error" -> c.outcome = "error"
    [] exp.v = "unspec" -> c.outcome = "error" \/ (c.outcome = "ok" /\ c.kept)
    [] exp.v = "ok" /\ exp.lax -> c.outcome = "error" \/ Same(exp, c)
    [] OTHER -> Same(exp, c)

Why(exp, c) ==
  CASE exp.v = "error" -> c.op \o " had to fail: " \o c.outcome
    [] c.outcome # "ok" -> c.op \o " had to succeed: " \o c.outcome
    [] ~c.kept -> c.op \o " result changed later"
    [] c.op \in {"a2l", "readcal"} /\ LeavesOf(c) # exp.leaves ->
         c.op \o " delivered other A2L content, missing " \o ToString(Cardinality(exp.leaves \ LeavesOf(c)))
         \o " surplus " \o ToString(Cardinality(LeavesOf(c) \ exp.leaves))
    [] c.op = "readcal" /\ c.idx # 0 -> "module index is not 0"
    [] OTHER -> c.op \o " delivered another image"

\* the distinct calls of an entry are judged once
Judge(e) ==
  LET due == [k \in 1..Len(e.calls) |-> DueOf(e, e.calls[k])]
      f == { k \in 1..Len(e.calls) : ~Conforms(due[k], e.calls[k]) }
  IN IF f = {} THEN << >>
     ELSE LET k == CHOOSE x \in f : \A y \in f : x <= y IN
          << [id |-> e.id, result |-> k, why |-> Why(due[k], e.calls[k])] >>

Init == l = 0 /\ bad = << >> /\ nok = 0 /\ nerr = 0 /\ open = << >>

Step ==
  /\ l < Len(Trace)
  /\ LET e == Trace[l + 1] IN
     /\ bad' = bad \o Judge(e)
     /\ nok' = nok + Cardinality({ k \in 1..Len(e.calls) : e.calls[k].outcome = "ok" })
     /\ nerr' = nerr + Cardinality({ k \in 1..Len(e.calls) : e.calls[k].outcome = "error" })
     /\ open' = open
  /\ l' = l + 1

Spec == Init /\ [][Step]_vars

Done == l = Len(Trace) =>
          JsonSerialize(IOEnv.VERIF_VERDICT, [judged |-> l, bad |-> bad, undecided |-> open,
                         info |-> [calls_ok |-> nok, calls_error |-> nerr]])
=============================================================================
