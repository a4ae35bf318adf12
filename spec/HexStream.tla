----------------------------- MODULE HexStream -----------------------------
(***************************************************************************)
(* Judges recorded executions of the real hex parsers on long files (far   *)
(* more than 65536 records). It is the same demand as in HexTrace, but     *)
(* evaluated record by record as the file is read, without ever building   *)
(* the image: the addresses defined so far are kept as a few intervals,    *)
(* and every record is compared with the delivered image as it comes.      *)
(* An image is right iff every record is found in it, no address is        *)
(* defined twice, and it has as many bytes as there were in the records.   *)
(***************************************************************************)
EXTENDS HexSem, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Chunk == 500

VARIABLES l, i, st, bad
vars == <<l, i, st, bad>>

Start == [ok |-> TRUE, ela |-> 0, cov |-> << >>, n |-> 0, lost |-> 0, at |-> 0]

\* a piece of a record within one 64k bank: addresses hi:a .. hi:a+Len(data)-1
Covered(cov, hi, a, b) ==
  \E k \in 1..Len(cov) : cov[k].hi = hi /\ cov[k].a <= b /\ a <= cov[k].b

Extend(cov, hi, a, b) ==
  LET ks == { k \in 1..Len(cov) : cov[k].hi = hi /\ (cov[k].b + 1 = a \/ b + 1 = cov[k].a) } IN
  IF ks = {} THEN Append(cov, [hi |-> hi, a |-> a, b |-> b])
  ELSE LET k == CHOOSE x \in ks : TRUE IN
       IF cov[k].b + 1 = a THEN [cov EXCEPT ![k].b = b] ELSE [cov EXCEPT ![k].a = a]

Delivered(runs, hi, a, data) ==
  LET ks == { k \in 1..Len(runs) : runs[k][1] = hi /\ runs[k][2] <= a /\ a + Len(data) <= runs[k][2] + Len(runs[k][3]) } IN
  /\ ks # {}
  /\ LET k == CHOOSE x \in ks : TRUE IN
     \A j \in 1..Len(data) : runs[k][3][a - runs[k][2] + j] = data[j]

Piece(s, hi, a, data, runs) ==
  IF ~s.ok \/ data = << >> THEN s
  ELSE IF Covered(s.cov, hi, a, a + Len(data) - 1) THEN [s EXCEPT !.ok = FALSE]
  ELSE [s EXCEPT !.cov = Extend(@, hi, a, a + Len(data) - 1), !.n = @ + Len(data),
                 !.lost = IF Delivered(runs, hi, a, data) THEN @ ELSE @ + 1]

Place(s, hi, lo, data, runs) ==
  LET fit == 65536 - lo IN
  IF Len(data) <= fit THEN Piece(s, hi, lo, data, runs)
  ELSE Piece(Piece(s, hi, lo, SubSeq(data, 1, fit), runs), (hi + 1) % 65536, 0, SubSeq(data, fit + 1, Len(data)), runs)

OneLine(s, fmt, line, runs) ==
  IF ~s.ok \/ IsBlank(line) THEN s
  ELSE LET r == IF fmt = "ihex" THEN IHexRec(line) ELSE SrecRec(line) IN
       IF ~r.ok THEN [s EXCEPT !.ok = FALSE]
       ELSE IF fmt = "srec" THEN Place(s, r.hi, r.lo, r.data, runs)
       ELSE CASE r.type = 0 -> Place(s, s.ela, r.lo, r.data, runs)
              [] r.type = 4 -> [s EXCEPT !.ela = 256 * r.data[1] + r.data[2]]
              [] OTHER -> s

Size(runs) == FoldLeft(LAMBDA a, x : a + Len(x[3]), 0, runs)

Verdict(e, s) ==
  IF s.ok THEN IF e.outcome # "ok" THEN << "valid file not accepted: " \o e.outcome >>
               ELSE IF s.lost > 0 THEN << "image differs, records missing or altered: " \o ToString(s.lost) >>
               ELSE IF s.n # Size(e.runs) THEN << "image differs, bytes " \o ToString(Size(e.runs)) \o " instead of " \o ToString(s.n) >>
               ELSE << >>
  ELSE IF e.outcome = "error" THEN << >> ELSE << "invalid file not rejected: " \o e.outcome >>

Init == l = 0 /\ i = 0 /\ st = Start /\ bad = << >>

Least(a, b) == IF a < b THEN a ELSE b

Step ==
  /\ l < Len(Trace)
  /\ LET e == Trace[l + 1]
         to == Least(i + Chunk, Len(e.lines))
         runs == IF e.outcome = "ok" THEN e.runs ELSE << >>
         s == FoldLeft(LAMBDA a, x : OneLine(a, e.fmt, Content(x), runs), st, SubSeq(e.lines, i + 1, to))
     IN IF to < Len(e.lines) /\ s.ok
        THEN /\ i' = to /\ st' = s /\ UNCHANGED <<l, bad>>
        ELSE LET v == Verdict(e, s) IN
             /\ l' = l + 1 /\ i' = 0 /\ st' = Start
             /\ bad' = IF v = << >> THEN bad ELSE Append(bad, [id |-> e.id, result |-> 1, why |-> v[1]])

Spec == Init /\ [][Step]_vars

Done == l = Len(Trace) =>
          JsonSerialize(IOEnv.VERIF_VERDICT, [judged |-> l, bad |-> bad])
=============================================================================
