------------------------------ MODULE A2LTrace ------------------------------
(***************************************************************************)
(* Judges recorded executions of the real A2L parser: every line of the    *)
(* trace holds the words of a file (or its text) and the distinct outcomes *)
(* the real code produced for it.                                          *)
(***************************************************************************)
EXTENDS A2LSem, A2LLex, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)

VARIABLES l, bad, nok, nerr, open
vars == <<l, bad, nok, nerr, open>>

Leaves(r) == { r.leaves[i] : i \in 1..Len(r.leaves) }

Same(exp, r) == r.outcome = "ok" /\ Leaves(r) = exp.leaves

Conforms(exp, r) ==
  CASE exp.v = "error" -> r.outcome = "error"
    [] exp.v = "unspec" -> r.outcome \in {"ok", "error"}
    [] exp.v = "ok" /\ exp.lax -> r.outcome = "error" \/ Same(exp, r)
    [] OTHER -> Same(exp, r)

Some(S) == LET q == SetToSeq(S) IN ToString(SubSeq(q, 1, IF Len(q) < 4 THEN Len(q) ELSE 4))

Why(exp, r) ==
  CASE exp.v = "error" -> "invalid file not rejected: " \o r.outcome
    [] exp.v = "unspec" -> r.outcome
    [] r.outcome # "ok" -> "valid file not accepted: " \o r.outcome
    [] OTHER -> LET a == Leaves(r) IN
                "content differs, missing " \o Some(exp.leaves \ a) \o " surplus " \o Some(a \ exp.leaves)

Judge(e, exp) ==
  LET f == { k \in 1..Len(e.results) : ~Conforms(exp, e.results[k]) } IN
  IF f = {} THEN << >>
  ELSE LET k == CHOOSE x \in f : TRUE IN << [id |-> e.id, result |-> k, why |-> Why(exp, e.results[k])] >>

\* what the specification says about an entry: it holds the words of a file or its text
Expected(e) ==
  IF "words" \in DOMAIN e THEN Parse(e.words)
  ELSE LET x == Lex(e) IN
       IF ~x.decided THEN [v |-> "unspec", lax |-> FALSE, leaves |-> {}]
       ELSE IF x.torn THEN TornParse(x.words)
       ELSE Parse(x.words)

Init == l = 0 /\ bad = << >> /\ nok = 0 /\ nerr = 0 /\ open = << >>

Step ==
  /\ l < Len(Trace)
  /\ LET e == Trace[l + 1]
         exp == Expected(e)
     IN /\ bad' = bad \o Judge(e, exp)
        /\ open' = IF exp.v = "unspec" THEN Append(open, e.id) ELSE open
        /\ nok' = nok + (IF exp.v = "ok" THEN 1 ELSE 0)
        /\ nerr' = nerr + (IF exp.v = "error" THEN 1 ELSE 0)
  /\ l' = l + 1

Spec == Init /\ [][Step]_vars

Done == l = Len(Trace) =>
          JsonSerialize(IOEnv.VERIF_VERDICT, [judged |-> l, bad |-> bad, undecided |-> open,
                         info |-> [files_required_ok |-> nok, files_required_error |-> nerr]])
=============================================================================
