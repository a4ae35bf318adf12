------------------------------ MODULE HexPipe -------------------------------
(***************************************************************************)
(* Design model of the parallel pipeline both hex parsers use              *)
(* (ihex32/hex.go, srec19/hex.go): the lines are divided among N parser    *)
(* goroutines, the records are collected in order, N goroutines propagate  *)
(* the extended linear addresses (Intel HEX only, one record at a time     *)
(* under the record's lock, stopping early at a record another goroutine   *)
(* has already visited), N goroutines validate checksums at the same time, *)
(* and finally the bytes are computed per chunk and merged.                *)
(*                                                                         *)
(* All files of up to MaxLen lines over a small alphabet of concrete lines,*)
(* all worker counts and all interleavings are explored; the result must   *)
(* be the one HexSem defines for the text (Agree), whatever the schedule   *)
(* (property C05), and every behaviour must end (no deadlock before done). *)
(* Each terminal state is emitted as a case that is replayed against the   *)
(* real code.                                                              *)
(***************************************************************************)
EXTENDS HexSem, TLC

CONSTANTS Fmt,       \* "ihex" or "srec"
          MaxLen, MinLen, Ns,
          Alpha      \* subset of the alphabet below that is used

\* ------------------------------------------------------------ the alphabet
HexChar(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Enc(bytes) == [i \in 1..(2 * Len(bytes)) |->
                 LET b == bytes[(i + 1) \div 2] IN HexChar(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]

IRec(typ, hi, lo, data, err) ==
  LET b == <<Len(data), hi, lo, typ>> \o data IN
  <<58>> \o Enc(Append(b, (512 - Sum(b) + err) % 256))
SRec(t, addr, data, err) ==
  LET b == <<Len(addr) + Len(data) + 1>> \o addr \o data IN
  <<83, 48 + t>> \o Enc(Append(b, (511 - Sum(b) + err) % 256))

Line(a) ==
  CASE a = "blank" -> << >>
    [] a = "junk"  -> <<88, 48, 48>>
    [] Fmt = "ihex" /\ a = "e0"  -> IRec(4, 0, 0, <<0, 0>>, 0)
    [] Fmt = "ihex" /\ a = "e1"  -> IRec(4, 0, 0, <<0, 1>>, 0)
    [] Fmt = "ihex" /\ a = "e2"  -> IRec(4, 0, 0, <<128, 2>>, 0)
    [] Fmt = "ihex" /\ a = "d"   -> IRec(0, 0, 16, <<17>>, 0)
    [] Fmt = "ihex" /\ a = "f"   -> IRec(0, 0, 32, <<34, 35>>, 0)
    [] Fmt = "ihex" /\ a = "g"   -> IRec(0, 0, 64, <<51>>, 0)
    [] Fmt = "ihex" /\ a = "x"   -> IRec(0, 255, 255, <<68, 69>>, 0)   \* crosses a 64k border
    [] Fmt = "ihex" /\ a = "end" -> IRec(1, 0, 0, << >>, 0)
    [] Fmt = "ihex" /\ a = "bad" -> IRec(0, 0, 80, <<85>>, 1)
    [] Fmt = "ihex" /\ a = "seg" -> IRec(2, 0, 0, <<16, 0>>, 0)
    [] Fmt = "srec" /\ a = "h"   -> SRec(0, <<0, 0>>, <<65, 66>>, 0)
    [] Fmt = "srec" /\ a = "d"   -> SRec(1, <<0, 16>>, <<17>>, 0)
    [] Fmt = "srec" /\ a = "f"   -> SRec(2, <<1, 0, 16>>, <<34, 35>>, 0)
    [] Fmt = "srec" /\ a = "g"   -> SRec(3, <<1, 0, 0, 16>>, <<51>>, 0)
    [] Fmt = "srec" /\ a = "x"   -> SRec(3, <<0, 0, 255, 255>>, <<68, 69>>, 0)
    [] Fmt = "srec" /\ a = "k"   -> SRec(3, <<0, 0, 0, 16>>, <<17>>, 0)
    [] Fmt = "srec" /\ a = "end" -> SRec(7, <<0, 0, 0, 0>>, << >>, 0)
    [] Fmt = "srec" /\ a = "bad" -> SRec(1, <<0, 80>>, <<85>>, 1)

LineOf == [a \in Alpha |-> Line(a)]

\* a record as parseRecord sees it: the checksum is only looked at later
Parsed(line) ==
  LET r == IF Fmt = "ihex" THEN IHexRec(line) ELSE SrecRec(line) IN r

ParsedOf == [a \in Alpha |->
  LET line == LineOf[a] IN
  IF a = "bad"
    THEN LET good == IF Fmt = "ihex" THEN IRec(0, 0, 80, <<85>>, 0) ELSE SRec(1, <<0, 80>>, <<85>>, 0)
         IN [rec |-> Parsed(good), sum |-> FALSE]
    ELSE [rec |-> Parsed(line), sum |-> TRUE]]

IsBlankA(a) == IsBlank(LineOf[a])

\* ------------------------------------------------------------ state
VARIABLES file,   \* the lines, as letters
          n,      \* number of workers
          phase,  \* "parse", "work", "done"
          pos,    \* first line of each parser goroutine, 0 = it has finished
          errs,   \* a parser goroutine has sent an error
          parts,  \* the records of each parser goroutine
          recs,   \* all records: [type, lo, data, off, sum]
          opos, ooff, ofirst,   \* the offset goroutines (0 = finished)
          cpos, cbad,           \* the checksum goroutines
          result
vars == <<file, n, phase, pos, errs, parts, recs, opos, ooff, ofirst, cpos, cbad, result>>

W == 1..n
Start(len, w) == (len \div n) * (w - 1) + 1
End(len, w) == IF w = n THEN len ELSE (len \div n) * w

Files == UNION { [1..k -> Alpha] : k \in MinLen..MaxLen }

Init ==
  /\ file \in Files /\ n \in Ns
  /\ phase = "parse"
  /\ pos = [w \in W |-> Start(Len(file), w)]
  /\ errs = FALSE
  /\ parts = [w \in W |-> << >>]
  /\ recs = << >>
  /\ opos = << >> /\ ooff = << >> /\ ofirst = << >> /\ cpos = << >> /\ cbad = FALSE
  /\ result = "none"

Static == UNCHANGED <<file, n>>

\* a parser goroutine works through its chunk and stops at the first malformed line
\* (it shares nothing with the others but the error channel, so this is one step)
RecOf(a) ==
  LET p == ParsedOf[a] IN
  [type |-> p.rec.type, hi |-> p.rec.hi, lo |-> p.rec.lo, data |-> p.rec.data,
   off |-> IF Fmt = "ihex" /\ p.rec.type = 4 THEN 256 * p.rec.data[1] + p.rec.data[2] ELSE 0,
   sum |-> p.sum]

ParseChunk(w) ==
  /\ phase = "parse" /\ pos[w] # 0
  /\ LET chunk == SelectSeq(SubSeq(file, pos[w], End(Len(file), w)), LAMBDA a : ~IsBlankA(a))
         wrong == {i \in 1..Len(chunk) : ~ParsedOf[chunk[i]].rec.ok}
     IN IF wrong # {} THEN errs' = TRUE /\ UNCHANGED parts
        ELSE parts' = [parts EXCEPT ![w] = [i \in 1..Len(chunk) |-> RecOf(chunk[i])]] /\ UNCHANGED errs
  /\ pos' = [pos EXCEPT ![w] = 0]
  /\ UNCHANGED <<phase, recs, opos, ooff, ofirst, cpos, cbad, result>> /\ Static

ParseDone == \A w \in W : pos[w] = 0

Flat(p) == FoldLeft(LAMBDA a, b : a \o b, << >>, p)

Collect ==
  /\ phase = "parse" /\ ParseDone
  /\ IF errs THEN /\ phase' = "done" /\ result' = "error"
                  /\ UNCHANGED <<recs, opos, ooff, ofirst, cpos>>
     ELSE LET rs == Flat(parts) IN
          /\ phase' = "work" /\ result' = result
          /\ recs' = rs
          /\ opos' = [w \in W |-> IF Fmt = "ihex" /\ Start(Len(rs), w) <= Len(rs) THEN Start(Len(rs), w) ELSE 0]
          /\ ooff' = [w \in W |-> 0]
          /\ ofirst' = [w \in W |-> FALSE]
          /\ cpos' = [w \in W |-> IF Start(Len(rs), w) <= End(Len(rs), w) THEN Start(Len(rs), w) ELSE 0]
  /\ parts' = << >> /\ pos' = << >>
  /\ UNCHANGED cbad /\ errs' = FALSE /\ Static

NextPos(p) == IF p < Len(recs) THEN p + 1 ELSE 0

\* one record of one offset goroutine (atomic: it holds the record's lock)
Offset(w) ==
  /\ phase = "work" /\ opos[w] # 0
  /\ LET r == recs[opos[w]]
         o == ooff[w]
     IN CASE r.type = 4 ->
               /\ ooff' = [ooff EXCEPT ![w] = r.off]
               /\ ofirst' = [ofirst EXCEPT ![w] = TRUE]
               /\ opos' = [opos EXCEPT ![w] = NextPos(@)]
               /\ UNCHANGED recs
          [] r.type = 0 ->
               IF ofirst[w] /\ r.off = o /\ o # 0
                 THEN /\ opos' = [opos EXCEPT ![w] = 0] /\ UNCHANGED <<recs, ooff, ofirst>>
               ELSE IF ofirst[w] /\ r.off # o
                 THEN /\ recs' = [recs EXCEPT ![opos[w]].off = o]
                      /\ ofirst' = [ofirst EXCEPT ![w] = FALSE]
                      /\ opos' = [opos EXCEPT ![w] = NextPos(@)] /\ UNCHANGED ooff
               ELSE IF r.off # o /\ o # 0
                 THEN /\ recs' = [recs EXCEPT ![opos[w]].off = o]
                      /\ opos' = [opos EXCEPT ![w] = NextPos(@)] /\ UNCHANGED <<ooff, ofirst>>
               ELSE /\ opos' = [opos EXCEPT ![w] = NextPos(@)] /\ UNCHANGED <<recs, ooff, ofirst>>
          [] OTHER -> /\ opos' = [opos EXCEPT ![w] = NextPos(@)] /\ UNCHANGED <<recs, ooff, ofirst>>
  /\ UNCHANGED <<phase, pos, errs, parts, cpos, cbad, result>> /\ Static

\* one checksum goroutine walks its chunk (it touches nothing the others write)
Checksum(w) ==
  /\ phase = "work" /\ cpos[w] # 0
  /\ cpos' = [cpos EXCEPT ![w] = 0]
  /\ cbad' = (cbad \/ \E i \in Start(Len(recs), w)..End(Len(recs), w) : ~recs[i].sum)
  /\ UNCHANGED <<phase, pos, errs, parts, recs, opos, ooff, ofirst, result>> /\ Static

SumsDone == \A w \in W : cpos[w] = 0
OffsDone == \A w \in W : opos[w] = 0

RejectSum ==
  /\ phase = "work" /\ SumsDone /\ cbad
  /\ phase' = "done" /\ result' = "error"
  \* the call has returned; offset goroutines that still run cannot influence anything any more
  /\ recs' = << >> /\ opos' = << >> /\ ooff' = << >> /\ ofirst' = << >>
  /\ UNCHANGED <<pos, errs, parts, cpos, cbad>> /\ Static

\* the bytes of the chunks, merged in order
AllBytes ==
  FoldLeft(LAMBDA acc, r : IF r.type \in {0, 1, 2, 3} /\ ~(Fmt = "ihex" /\ r.type # 0)
                             THEN acc \o RecBytes(r, IF Fmt = "ihex" THEN r.off ELSE r.hi) ELSE acc,
           << >>, recs)

Merge ==
  /\ phase = "work" /\ SumsDone /\ ~cbad /\ OffsDone
  /\ phase' = "done"
  /\ result' = LET b == AllBytes
                   a == {b[i][1] : i \in 1..Len(b)}
               IN IF Cardinality(a) # Len(b) THEN "error" ELSE "ok"
  /\ ooff' = << >> /\ ofirst' = << >>
  /\ UNCHANGED <<pos, errs, parts, recs, opos, cpos, cbad>> /\ Static

Next ==
  \/ \E w \in W : ParseChunk(w) \/ Offset(w) \/ Checksum(w)
  \/ Collect \/ RejectSum \/ Merge
  \/ phase = "done" /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------------------------------------ properties
Expected == HexParse(Fmt, [i \in 1..Len(file) |-> LineOf[file[i]]])

\* C01-C05: whatever the division of work and the schedule, the outcome is the one of the text
Agree ==
  phase = "done" =>
    LET e == Expected IN
    /\ (result = "ok") = e.ok
    /\ result = "ok" => {AllBytes[i] : i \in 1..Len(AllBytes)} = e.image

\* a record is never given an offset that is not the one of the last offset record before it
LastELA(i) == LET s == {j \in 1..(i - 1) : recs[j].type = 4} IN
              IF s = {} THEN 0 ELSE recs[CHOOSE j \in s : \A k \in s : k <= j].off
OffsetSound ==
  (Fmt = "ihex" /\ phase = "work") =>
     \A i \in 1..Len(recs) : recs[i].type = 0 => recs[i].off \in {0, LastELA(i)}

Terminates == <>(phase = "done")

ASSUME \A a \in Alpha : PrintT("LINE " \o ToString(<<a, LineOf[a]>>))

\* emits every terminal (file, n) once for replay against the real code
Emit == (phase = "done" /\ result # "none") => PrintT("CASE " \o ToString(<<n, result, file>>))
=============================================================================
