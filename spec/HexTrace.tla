------------------------------ MODULE HexTrace ------------------------------
(***************************************************************************)
(* Judges recorded executions of the real hex parsers: every line of the   *)
(* trace holds the text of a file and the distinct outcomes the real code  *)
(* produced for it (one per worker count / repetition that differed).      *)
(* An outcome conforms iff it is the one HexSem defines for that text.     *)
(***************************************************************************)
EXTENDS HexSem, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)

VARIABLES l, bad
vars == <<l, bad>>

ImageOf(runs) ==
  UNION { { << AddrPlus(runs[k][1], runs[k][2], i - 1), runs[k][3][i] >> : i \in 1..Len(runs[k][3]) }
          : k \in 1..Len(runs) }

Conforms(exp, r) ==
  \/ exp.ok /\ r.outcome = "ok" /\ ImageOf(r.runs) = exp.image
  \/ ~exp.ok /\ r.outcome = "error"

Why(exp, r) ==
  IF exp.ok THEN IF r.outcome # "ok" THEN "valid file not accepted: " \o r.outcome
                 ELSE LET a == ImageOf(r.runs) IN
                      "image differs, missing " \o ToString(Cardinality(exp.image \ a))
                      \o " surplus " \o ToString(Cardinality(a \ exp.image))
  ELSE "invalid file not rejected: " \o r.outcome

Failed(e) ==
  LET exp == HexParse(e.fmt, e.lines) IN
  { k \in 1..Len(e.results) : ~Conforms(exp, e.results[k]) }

Judge(e) ==
  LET f == Failed(e) IN
  IF f = {} THEN << >>
  ELSE LET k == CHOOSE x \in f : TRUE IN
       << [id |-> e.id, result |-> k, why |-> Why(HexParse(e.fmt, e.lines), e.results[k])] >>

\* how many files were valid, to tell vacuous runs apart
Init == l = 0 /\ bad = << >>

Step ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ bad' = bad \o Judge(Trace[l + 1])

Spec == Init /\ [][Step]_vars

Done == l = Len(Trace) =>
          JsonSerialize(IOEnv.VERIF_VERDICT, [judged |-> l, bad |-> bad])
=============================================================================
