------------------------------- MODULE HexSem -------------------------------
(***************************************************************************)
(* Reference semantics of the two memory image formats of calibrationReader*)
(* (Intel HEX with 32 bit addresses, Motorola S-records) from the text of  *)
(* a file, i.e. a sequence of lines, each a sequence of character codes,   *)
(* to either an image or an error.                                         *)
(*                                                                         *)
(* A 32 bit address is a pair <<hi, lo>> of 16 bit halves, because TLC's   *)
(* integers are 32 bit signed.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* ------------------------------------------------------------ characters
DigitOf ==
  [c \in 0..255 |->
     IF c \in 48..57 THEN c - 48
     ELSE IF c \in 65..70 THEN c - 55
     ELSE IF c \in 97..102 THEN c - 87
     ELSE -1]

IsHex(c) == c \in 0..255 /\ DigitOf[c] >= 0

\* a file is divided into lines at LF; a CR in front of the LF belongs to the line end, not to the line
Content(line) == IF line # << >> /\ line[Len(line)] = 13 THEN SubSeq(line, 1, Len(line) - 1) ELSE line

\* a line without a single visible character (also a lone ctrl-z) is blank
IsBlank(line) == \A i \in 1..Len(line) : line[i] \in {9, 11, 12, 13, 26, 32}

\* the bytes written by the hex digits at positions from, from+1, ... of a line
ByteAt(line, p) == 16 * DigitOf[line[p]] + DigitOf[line[p + 1]]

BytesFrom(line, from) ==
  [i \in 1..((Len(line) - from + 1) \div 2) |-> ByteAt(line, from + 2 * (i - 1))]

HexFrom(line, from) ==
  /\ (Len(line) - from + 1) % 2 = 0
  /\ \A i \in from..Len(line) : IsHex(line[i])

Sum(bytes) == FoldLeft(LAMBDA a, b : (a + b) % 256, 0, bytes)

\* ------------------------------------------------------------ addresses
\* (a.hi * 65536 + a.lo + i) mod 2^32
AddrPlus(hi, lo, i) ==
  LET s == lo + i IN << (hi + (s \div 65536)) % 65536, s % 65536 >>

\* ------------------------------------------------------------ Intel HEX
IHexTypes == {0, 1, 3, 4, 5}

\* the record of a line: [ok, type, addr, data]
NoRec == [ok |-> FALSE, type |-> -1, hi |-> 0, lo |-> 0, data |-> << >>]

IHexRec(line) ==
  IF ~(Len(line) >= 11 /\ line[1] = 58 /\ HexFrom(line, 2)) THEN NoRec
  ELSE LET b == BytesFrom(line, 2)
           n == Len(b)
       IN IF /\ b[1] = n - 5
             /\ Sum(b) = 0
             /\ b[4] \in IHexTypes
             /\ (b[4] = 4 => b[1] = 2)
          THEN [ok |-> TRUE, type |-> b[4], hi |-> 0, lo |-> 256 * b[2] + b[3],
                data |-> SubSeq(b, 5, n - 1)]
          ELSE NoRec

\* bytes a record contributes, given the extended linear address in force
RecBytes(rec, hi) ==
  [i \in 1..Len(rec.data) |->
      << AddrPlus(hi, rec.lo, i - 1), rec.data[i] >>]

\* one step of the sequential reader; st = [ok, ela, out]
IHexStep(st, line) ==
  IF ~st.ok \/ IsBlank(line) THEN st
  ELSE LET r == IHexRec(line) IN
       IF ~r.ok THEN [st EXCEPT !.ok = FALSE]
       ELSE CASE r.type = 0 -> [st EXCEPT !.out = @ \o RecBytes(r, st.ela)]
              [] r.type = 4 -> [st EXCEPT !.ela = 256 * r.data[1] + r.data[2]]
              [] OTHER -> st

IHexFold(lines) == FoldLeft(IHexStep, [ok |-> TRUE, ela |-> 0, out |-> << >>], lines)

\* ------------------------------------------------------------ S-records
\* number of address bytes by type digit; 4 is reserved
SrecAddrLen == [t \in {0, 1, 2, 3, 5, 6, 7, 8, 9} |->
                  CASE t \in {0, 1, 5, 9} -> 2 [] t \in {2, 6, 8} -> 3 [] t \in {3, 7} -> 4]

SrecRec(line) ==
  IF ~(Len(line) >= 4 /\ line[1] = 83 /\ line[2] \in 48..57 /\ HexFrom(line, 3)) THEN NoRec
  ELSE LET t == line[2] - 48
           b == BytesFrom(line, 3)
           n == Len(b)
       IN IF t \notin DOMAIN SrecAddrLen THEN NoRec
          ELSE LET al == SrecAddrLen[t] IN
            IF n < 1 + al + 1 \/ b[1] # n - 1 \/ Sum(b) # 255 THEN NoRec
            ELSE LET A(k) == IF k > al THEN 0 ELSE b[1 + al - k + 1]   \* k-th least significant address byte
                 IN [ok |-> TRUE, type |-> t, hi |-> 256 * A(4) + A(3), lo |-> 256 * A(2) + A(1),
                     data |-> IF t \in {1, 2, 3} THEN SubSeq(b, 2 + al, n - 1) ELSE << >>]

SrecStep(st, line) ==
  IF ~st.ok \/ IsBlank(line) THEN st
  ELSE LET r == SrecRec(line) IN
       IF ~r.ok THEN [st EXCEPT !.ok = FALSE]
       ELSE [st EXCEPT !.out = @ \o RecBytes(r, r.hi)]

SrecFold(lines) == FoldLeft(SrecStep, [ok |-> TRUE, ela |-> 0, out |-> << >>], lines)

\* ------------------------------------------------------------ result
Failure == [ok |-> FALSE, image |-> {}]

\* out: the sequence of <<address, byte>> in file order
Result(st) ==
  IF ~st.ok THEN Failure
  ELSE LET addrs == {st.out[i][1] : i \in 1..Len(st.out)} IN
       IF Cardinality(addrs) # Len(st.out) THEN Failure      \* an address is defined twice
       ELSE [ok |-> TRUE, image |-> {st.out[i] : i \in 1..Len(st.out)}]

HexParse(fmt, raw) ==
  LET lines == [k \in 1..Len(raw) |-> IF k < Len(raw) THEN Content(raw[k]) ELSE raw[k]]   \* nothing ends the last one
  IN Result(IF fmt = "ihex" THEN IHexFold(lines) ELSE SrecFold(lines))
=============================================================================
