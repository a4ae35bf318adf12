------------------------------- MODULE A2LNum -------------------------------
(***************************************************************************)
(* Numerals of ASAP2 files: which words denote a number of a given kind    *)
(* and which value they denote, as a canonical numeral.                    *)
(* (TLC's integers have 32 bits, so everything is done on the digits.)     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Digit == "0" :> 0 @@ "1" :> 1 @@ "2" :> 2 @@ "3" :> 3 @@ "4" :> 4 @@ "5" :> 5 @@ "6" :> 6 @@ "7" :> 7
         @@ "8" :> 8 @@ "9" :> 9
Digits == DOMAIN Digit

Chars(w) == [i \in 1..Len(w) |-> SubSeq(w, i, i)]
Concat(cs) == FoldLeft(LAMBDA a, b : a \o b, "", cs)
AllDigits(cs) == \A i \in 1..Len(cs) : cs[i] \in Digits

\* without leading zeros; the number zero becomes the empty sequence
RECURSIVE Strip(_)
Strip(cs) == IF cs # << >> /\ Head(cs) = "0" THEN Strip(Tail(cs)) ELSE cs
RECURSIVE StripEnd(_)
StripEnd(cs) == IF cs # << >> /\ cs[Len(cs)] = "0" THEN StripEnd(SubSeq(cs, 1, Len(cs) - 1)) ELSE cs

\* a <= b for digit sequences without leading zeros
LeqDigits(a, b) ==
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ \/ a = b
        \/ \E i \in 1..Len(a) : /\ Digit[a[i]] < Digit[b[i]]
                                /\ \A j \in 1..(i - 1) : a[j] = b[j]

Limits ==
  "u16" :> [neg |-> << >>, pos |-> Chars("65535")] @@
  "u32" :> [neg |-> << >>, pos |-> Chars("4294967295")] @@
  "i16" :> [neg |-> Chars("32768"), pos |-> Chars("32767")] @@
  "i32" :> [neg |-> Chars("2147483648"), pos |-> Chars("2147483647")]

Good(c) == [k |-> "ok", c |-> c]
Bad == [k |-> "bad", c |-> ""]
Unspecified == [k |-> "unspec", c |-> ""]

\* words other systems may read as a number: not decided here
Exotic(cs) ==
  \/ \E i \in 1..Len(cs) : cs[i] \in {"_", "x", "X", "p", "P"} /\ cs[1] \in Digits \cup {"-", "+"}
  \/ cs # << >> /\ cs[1] = "+"
  \/ cs # << >> /\ LET h == IF cs[1] = "-" /\ Len(cs) > 1 THEN cs[2] ELSE cs[1] IN h \in {"i", "I", "n", "N"}

\* decimal integers. A plus sign is neither required nor forbidden, as is a sign of an unsigned zero
IntNum(kind, w) ==
  LET cs == Chars(w)
      signed == cs # << >> /\ cs[1] \in {"-", "+"}
      ds == IF signed THEN Tail(cs) ELSE cs
      d == Strip(ds)
      lim == Limits[kind]
  IN IF Exotic(cs) THEN Unspecified
     ELSE IF ds = << >> \/ ~AllDigits(ds) THEN Bad
     ELSE IF d = << >> THEN (IF signed /\ lim.neg = << >> THEN Unspecified ELSE Good("0"))
     ELSE IF signed THEN (IF LeqDigits(d, lim.neg) THEN Good("-" \o Concat(d)) ELSE Bad)
     ELSE IF LeqDigits(d, lim.pos) THEN Good(Concat(d)) ELSE Bad

\* the value of a short digit sequence
ValOf(ds) == FoldLeft(LAMBDA a, b : 10 * a + Digit[b], 0, ds)

IndexOf(cs, S) == LET I == {i \in 1..Len(cs) : cs[i] \in S} IN
                  IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

\* decimal floating point numbers: [-]digits[.digits][e[+-]digits]
FloatNum(w) ==
  LET cs0 == Chars(w)
      neg == cs0 # << >> /\ cs0[1] = "-"
      cs == IF neg THEN Tail(cs0) ELSE cs0
      e == IndexOf(cs, {"e", "E"})
      m == IF e = 0 THEN cs ELSE SubSeq(cs, 1, e - 1)
      x0 == IF e = 0 THEN << "0" >> ELSE SubSeq(cs, e + 1, Len(cs))
      xneg == x0 # << >> /\ x0[1] = "-"
      x == IF x0 # << >> /\ x0[1] \in {"-", "+"} THEN Tail(x0) ELSE x0
      p == IndexOf(m, {"."})
      ip == IF p = 0 THEN m ELSE SubSeq(m, 1, p - 1)
      fp == IF p = 0 THEN << >> ELSE SubSeq(m, p + 1, Len(m))
      lead == Strip(ip \o fp)
      sig == StripEnd(lead)
      xd == Strip(x)
      xv == IF xneg THEN 0 - ValOf(xd) ELSE ValOf(xd)
      \* the first significant digit stands for 10^ex
      ex == Len(ip) - (Len(ip) + Len(fp) - Len(lead)) - 1 + xv
      exs == IF ex < 0 THEN 0 - ex ELSE ex
      exd == (IF ex < 0 THEN "-" ELSE "+") \o (IF exs < 10 THEN "0" ELSE "") \o ToString(exs)
      man == IF Len(sig) = 1 THEN sig[1] ELSE sig[1] \o "." \o Concat(Tail(sig))
  IN IF Exotic(cs0) THEN Unspecified
     ELSE IF ip \o fp = << >> \/ ~AllDigits(ip \o fp) \/ x = << >> \/ ~AllDigits(x) THEN Bad
     ELSE IF sig = << >> THEN Good("0")
     ELSE IF Len(xd) > 6 THEN (IF xneg THEN Unspecified ELSE Bad)
     ELSE IF Len(sig) > 15 \/ ex < -290 THEN Unspecified
     ELSE IF ex > 308 THEN Bad
     ELSE IF ex > 290 THEN Unspecified
     ELSE Good((IF neg THEN "-" ELSE "") \o man \o "e" \o exd)

Num(kind, w) == IF kind = "f" THEN FloatNum(w) ELSE IntNum(kind, w)
NumKinds == {"u16", "u32", "i16", "i32", "f"}
=============================================================================
